"""An independent reader of Chemkin files.  Numbers may be tokens that stand for a
symbolic value written with some format."""

import re

from symx import core
from symx.core import And, Not, Or

class Unreadable(Exception):
    pass


class Tokens:
    """c.formatter: every formatted symbolic value becomes a token as wide as the text."""

    SPEC = re.compile(r"^(?:.?([<>=^]))?[-+ ]?0?(\d*),?(?:\.(\d+))?([eEfFgG]?)$")

    def __init__(self, c):
        self.c = c
        self.values = []
        if not c.concrete:
            c.formatter = self

    def __call__(self, v, spec):
        m = self.SPEC.match(spec)
        if not m:
            raise ValueError("Invalid format specifier %r" % spec)
        align, width, digits, kind = m.groups()
        kind = kind.lower()
        n = int(digits) if digits else (6 if kind else None)
        if not kind and n is not None:
            kind = "g"
        length = {"e": 7, "f": 5, "g": 7, "": 8}[kind] + (n or 0)
        self.values.append((v, kind, n))
        text = ("{%d" % (len(self.values) - 1)).ljust(length - 1, "~") + "}"
        w = int(width or 0)
        return text.ljust(w) if align == "<" else text.center(w) if align == "^" else text.rjust(w)

    def read(self, text):
        """The number in a field."""
        t = text.strip()
        if "{" in t or "}" in t or "~" in t:
            m = re.match(r"^\{(\d+)~*\}$", t)
            if not m:
                raise Unreadable("numbers run together or cut off")
            return Number(*self.values[int(m.group(1))])
        m = re.match(r"^[-+]?(\d*)\.?(\d*)(?:[eEdD]([-+]?\d+))?$", t)
        if not m or not (m.group(1) or m.group(2)):
            raise Unreadable("not a number: %r" % printable(t))
        v = float(re.sub("[dD]", "e", t))
        if m.group(3) is not None:
            return Number(v, "e", len(m.group(2)))
        return Number(v, "f", len(m.group(2)), text=True)


def printable(t):
    return re.sub(r"\{\d+~*\}", "<n>", t)


class Number:
    def __init__(self, value, kind, n, text=False):
        self.value, self.kind, self.n, self.text = value, kind, n, text

    def matches(self, c, want, sig=3, dec=None):
        """Is this ``want`` to ``sig`` significant digits (or ``dec`` decimals)?"""
        if core.is_sym(self.value):
            d = self.value - want
            m = 1e-5 * abs(want)
            same = And(d <= m, -1 * d <= m)
            # too few digits show for a value such as 1.23456789e5
            short = Not(Or(*[want == 1.23456789 * 10.0 ** k for k in range(-25, 30)]))
            if self.kind in ("e", "g"):
                enough = self.n + (self.kind == "e") >= sig
            elif self.kind == "f":
                enough = self.n >= dec if dec is not None else \
                    Or(want == 0, abs(want) >= 10.0 ** (sig - 1 - self.n))
            else:
                enough = True
            return same if enough is True else And(same, Or(enough, short))
        tol = 0.6 * 10.0 ** (1 - sig) * abs(want)
        d = self.value - want
        if dec is not None:
            tol = 0.6 * 10.0 ** -dec + (1e-5 * abs(want) if self.kind != "e" else tol)
        elif self.kind == "f" and not self.text:
            pass
        return And(d <= tol, -1 * d <= tol)


R_CAL = 8.31446261815324 / 4.184
ENERGY = {"CAL/MOLE": 1.0, "KCAL/MOLE": 1e3, "JOULES/MOLE": 1 / 4.184, "KJOULES/MOLE": 1e3 / 4.184,
          "KELVINS": R_CAL}
KEYWORDS = ("LOW", "HIGH", "TROE", "SRI", "PLOG", "CHEB", "TCHEB", "PCHEB", "FORD", "RORD", "REV",
            "RLT", "LT")


def lines_of(path):
    out = []
    for line in open(path):
        line = line.rstrip("\n").split("!")[0].rstrip()
        if line.strip():
            out.append(line)
    return out


def side(text):
    """{species: coefficient}, third body ("M" or "(M)" or "(name)")."""
    t = text.replace(" ", "")
    m = re.search(r"\(\+([^()]+(?:\([^()]*\))?)\)$", t)
    body = None
    if m:
        body = "(%s)" % m.group(1)
        t = t[:m.start()]
    out = {}
    for part in t.split("+"):
        m = re.match(r"^(\d+\.?\d*|\.\d+)?(.+)$", part)
        if not m:
            raise Unreadable("equation %r" % text)
        n, s = float(m.group(1) or 1), m.group(2)
        if s == "M":
            if body:
                raise Unreadable("two third bodies: %r" % text)
            body = "M"
        else:
            out[s] = out.get(s, 0.0) + n
    return out, body


def equation(text):
    for arrow, rev in (("<=>", True), ("=>", False), ("=", True)):
        if arrow in text:
            parts = text.split(arrow)
            if len(parts) != 2:
                raise Unreadable("equation %r" % text)
            (a, x), (b, y) = side(parts[0]), side(parts[1])
            if x != y:
                raise Unreadable("third body on one side only: %r" % text)
            return {"reactants": a, "products": b, "body": x, "reversible": rev}
    raise Unreadable("no equation in %r" % text)


def mechanism(tokens, path):
    """{"elements", "species", "reactions": [...]}"""
    out = {"elements": [], "species": [], "reactions": []}
    section = None
    unit = "CAL/MOLE"
    for line in lines_of(path):
        words = line.split()
        head = words[0].upper()
        if head[:4] in ("ELEM", "SPEC", "REAC", "THER") and section is None:
            section = head[:4]
            words = words[1:]
            if section == "REAC":
                for w in words:
                    if w.upper() in ENERGY:
                        unit = w.upper()
                    elif w.upper() != "MOLES":
                        raise Unreadable("unit %r" % w)
                continue
        elif head == "END":
            section = None
            words = words[1:]
            if words:
                raise Unreadable("text after END")
            continue
        if section in ("ELEM", "SPEC"):
            out["elements" if section == "ELEM" else "species"] += words
        elif section == "REAC":
            one_line(tokens, out["reactions"], line)
        elif words:
            raise Unreadable("text outside a section: %r" % printable(line))
    for r in out["reactions"]:
        r["unit"] = ENERGY[unit]
    return out


def fields(tokens, text):
    return [tokens.read(w) for w in text.split()]


def one_line(tokens, reactions, line):
    bare = line.split("/")[0]
    if "=" in bare:
        words = line.split()
        if len(words) < 4:
            raise Unreadable("reaction line %r" % printable(line))
        r = equation(" ".join(words[:-3]))
        r["rate"] = [tokens.read(w) for w in words[-3:]]
        r.update({"eff": [], "aux": {}, "dup": 0, "text": " ".join(words[:-3])})
        reactions.append(r)
        return
    if not reactions:
        raise Unreadable("auxiliary line before any reaction")
    r = reactions[-1]
    if re.match(r"^\s*DUP", line.upper()):
        r["dup"] += 1
        return
    parts = line.split("/")
    if len(parts) % 2 == 0 or parts[-1].strip():
        raise Unreadable("slashes in %r" % printable(line))
    for k, v in zip(parts[::2], parts[1::2]):
        k = k.strip()
        if k.upper() in KEYWORDS:
            r["aux"].setdefault(k.upper(), []).append(fields(tokens, v))
        elif not k:
            raise Unreadable("no keyword in %r" % printable(line))
        else:
            r["eff"].append((k, tokens.read(v)))


def thermo(tokens, path):
    """[{name, comp, T, coeffs}]"""
    lines = [x.rstrip("\n") for x in open(path)]
    if not lines[0].upper().startswith("THERMO"):
        raise Unreadable("no THERMO line")
    out = []
    i = 2
    while i < len(lines) and lines[i].strip() != "END":
        extra = []
        while i + 1 < len(lines) and lines[i].endswith("&"):
            # composition on continuation lines
            extra += lines[i + 1].rstrip("&").split()
            lines[i:i + 2] = [lines[i][:-1] + ("&" if lines[i + 1].endswith("&") else "")]
        block = lines[i:i + 4]
        i += 4
        if len(block) < 4:
            raise Unreadable("incomplete entry")
        for k, x in enumerate(block):
            if len(x) < 80 or x[79] != str(k + 1):
                raise Unreadable("no %d in column 80: %r" % (k + 1, printable(x)))
        a = block[0]
        comp = {}
        for p in (24, 29, 34, 39, 73):
            el, n = a[p:p + 2].strip(), a[p + 2:p + 5].strip()
            if p == 73 and not re.match(r"^[A-Za-z]{1,2}$", el):
                continue
            if el and n not in ("", "0"):
                if not re.match(r"^-?\d+\.?$", n) or not el.isalpha() or el in comp:
                    raise Unreadable("composition in %r" % printable(a))
                comp[el] = int(float(n))
        if extra:
            if comp or len(extra) % 2 or len(set(extra[::2])) != len(extra) // 2:
                raise Unreadable("composition of %r" % printable(a))
            comp = {k: int(v) for k, v in zip(extra[::2], extra[1::2])}
        nums = []
        for row, n in ((block[1], 5), (block[2], 5), (block[3], 4)):
            nums += [tokens.read(row[15 * k:15 * k + 15]) for k in range(n)]
        T = [tokens.read(a[45:55]), tokens.read(a[65:73]), tokens.read(a[55:65])]
        out.append({"name": a[:18].split()[0], "comp": comp, "T": T, "coeffs": nums,
                    "phase": a[44]})
    if i >= len(lines):
        raise Unreadable("no END")
    return out


def transport(tokens, path):
    """[{name, geometry, numbers}]"""
    out = []
    for line in lines_of(path):
        w = line.split()
        if w[0].upper() in ("TRANSPORT", "TRAN", "END"):
            continue
        if len(w) != 7:
            raise Unreadable("%d fields in %r" % (len(w), printable(line)))
        out.append({"name": w[0], "geometry": w[1], "numbers": [tokens.read(x) for x in w[2:]]})
    return out
