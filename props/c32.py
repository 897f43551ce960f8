"""Numbers in configuration files: which texts are read as numbers."""
import os
import re._parser as sre
import warnings
from fractions import Fraction

import yaml

META = dict(
    bounds="every text of up to 9 characters (thorough: 12): whole numbers without leading zeros, decimals, scientific "
           "notation with and without point, sign and exponent sign; and every text starting with a letter that "
           "is no YAML word (true, null, ...)",
    outside="longer texts; quoted texts; other YAML 1.1 forms (octal, sexagesimal, dates, underscores); a sign directly before "
            "a point",
    assumptions=["PyYAML takes the first resolver, in order, whose pattern matches (replayed with yaml.load), and its float "
                 "and int constructors"])

WORDS = {"y", "n", "yes", "no", "true", "false", "on", "off", "null"}


def cases(tier):
    n = 9 if tier == "quick" else 12
    return [dict(name="%s-%d" % (k, i), kw=dict(kind=k, n=i)) for k in ("decimal", "point", "scientific", "whole", "word")
            for i in range(1, n + 1) if not (k == "decimal" and i < 2 or k in ("point", "scientific") and i < (2 if k == "point" else 3))
            and not (k == "word" and i > 7)] + \
        [dict(name="read-" + w, kw=dict(kind=w, n=0)) for w in ("model", "preprocessor")]


D = ("0", "9")
FORMS = {   # alternatives of (class, min, max); None: no limit
    "whole": r"[-+]?(?:0|[1-9][0-9]*)",
    "decimal": r"[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?",
    "point": r"\.[0-9]+(?:[eE][-+]?[0-9]+)?",
    "scientific": r"[-+]?[0-9]+[eE][-+]?[0-9]+",
    "word": r"[A-Za-z][A-Za-z0-9_/.+-]*",
}


class Match:
    """Formula: a regular expression matches all of a text of given characters."""
    def __init__(self, c, chars):
        self.c, self.chars, self.n = c, chars, len(chars)

    def one(self, op, av, ch):
        c = self.c
        if op is sre.LITERAL:
            return c.eq(ch, av, exact=True)
        if op is sre.NOT_LITERAL:
            return c.ne(ch, av, exact=True)
        if op is sre.ANY:
            return c.ne(ch, 10, exact=True)
        if op is sre.RANGE:
            return c.And(c.le(av[0], ch, exact=True), c.le(ch, av[1], exact=True))
        if op is sre.CATEGORY:
            if av is sre.CATEGORY_DIGIT:
                return self.one(sre.RANGE, (48, 57), ch)
            if av is sre.CATEGORY_SPACE:
                return c.Or(c.eq(ch, 32, exact=True), self.one(sre.RANGE, (9, 13), ch))
            if av is sre.CATEGORY_WORD:
                return c.Or(self.one(sre.RANGE, (48, 57), ch), self.one(sre.RANGE, (65, 90), ch),
                            self.one(sre.RANGE, (97, 122), ch), c.eq(ch, 95, exact=True))
        if op is sre.IN:
            neg = av and av[0][0] is sre.NEGATE
            p = c.Or([self.one(o, a, ch) for o, a in (av[1:] if neg else av)])
            return c.Not(p) if neg else p
        raise NotImplementedError("pattern element %s %s" % (op, av))

    def ends(self, items, start):
        """{end position: condition} after matching the items from the start positions {position: condition}."""
        cur = dict(start)
        for op, av in items:
            cur = self.step(op, av, cur)
        return cur

    def merge(self, *ds):
        r = {}
        for d in ds:
            for k, v in d.items():
                r.setdefault(k, []).append(v)
        return {k: v[0] if len(v) == 1 else self.c.Or(v) for k, v in r.items()}

    def step(self, op, av, cur):
        if op is sre.SUBPATTERN:
            return self.ends(av[3], cur)
        if op is sre.BRANCH:
            return self.merge(*[self.ends(b, cur) for b in av[1]])
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                cur = self.ends(sub, cur)
            acc, k = cur, lo
            while cur and (hi is sre.MAXREPEAT or k < hi) and k <= lo + self.n:
                cur = self.ends(sub, cur)
                acc = self.merge(acc, cur)
                k += 1
            return acc
        if op is sre.AT:
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                return {k: v for k, v in cur.items() if k == 0}
            if av in (sre.AT_END, sre.AT_END_STRING):
                return {k: v for k, v in cur.items() if k == self.n}
            raise NotImplementedError(str(av))
        return {k + 1: self.c.And(v, self.one(op, av, self.chars[k])) for k, v in cur.items() if k < self.n}

    def full(self, pattern, flags=0, anchored=True):
        """match() finds the pattern; with anchored, only if it takes the whole text."""
        e = self.ends(sre.parse(pattern, flags), {0: self.c.And()})
        es = [v for k, v in e.items() if k == self.n] if anchored else list(e.values())
        return self.c.Or(es) if es else self.c.Or()


def resolved(c, loader, chars, tag):
    """Formula: the loader's first matching resolver has this tag."""
    m = Match(c, chars)
    res = loader.yaml_implicit_resolvers
    pat = {}

    def matches(r):
        if id(r) not in pat:
            pat[id(r)] = m.full(r.pattern, r.flags & ~32, anchored=False)
        return pat[id(r)]
    groups = {}
    for ch, rs in res.items():
        if ch is not None and ch != "":
            rs = rs + res.get(None, [])
            groups.setdefault(tuple((t, id(r)) for t, r in rs), (rs, []))[1].append(ord(ch))
    out = []
    for rs, firsts in groups.values():
        before = []
        hit = []
        for t, r in rs:
            if t.endswith(":" + tag):
                hit.append(c.And([c.Not(x) for x in before] + [matches(r)]))
            else:
                before.append(matches(r))
        if hit:
            out.append(c.And(c.Or([c.eq(chars[0], f, exact=True) for f in firsts]), c.Or(hit)))
    return c.Or(out)


def run(c, kind, n):
    warnings.simplefilter("ignore")
    loader = c.mod("shared_tools").custom_yaml_loader()
    if kind in ("model", "preprocessor"):
        return read(c, kind)
    chars = [c.int("ch%d" % i, 33, 126) for i in range(n)]
    c.assume(Match(c, chars).full(FORMS[kind]))
    if kind == "word":
        for w in sorted(WORDS):
            if len(w) == n:
                c.assume(c.Not(c.And([c.Or(c.eq(ch, ord(a), exact=True), c.eq(ch, ord(a.upper()), exact=True))
                                      for ch, a in zip(chars, w)])))
    want = {"whole": "int", "word": "str"}.get(kind, "float")
    if c.sym:
        fl, it = resolved(c, loader, chars, "float"), resolved(c, loader, chars, "int")
        if kind == "word":
            c.check("a text starting with a letter is no number", c.And(c.Not(fl), c.Not(it)))
        elif kind == "whole":
            c.check("a whole number is read as that number", it)
        else:
            c.check("a decimal number is read as that number", fl)
        return
    text = "".join(chr(int(x)) for x in chars)
    v = yaml.load("a: %s\n" % text, Loader=loader)["a"]
    if kind == "word":
        c.check("a text starting with a letter is no number", v == text)
    elif kind == "whole":
        c.check("a whole number is read as that number", type(v) is int and v == int(text))
    else:
        ok = type(v) is float
        if ok:
            man, _, ex = text.lower().partition("e")
            want = float(text)
            ok = v == want or (abs(int(ex or 0)) < 300 and abs(Fraction(v) - Fraction(text)) <= abs(Fraction(text)) / 2**50)
        c.check("a decimal number is read as that number", ok)


def read(c, kind):
    text = c.choice("text", ["1e-9", "1E5", "2e+2", "5.5e3", ".5", "3", "-2.", "1.25"])
    p = os.path.join(c.scratch(), "c.yml")
    out = os.path.join(c.scratch(), "o")
    with open(p, "w") as f:
        f.write("out_dir: %s\nH_SL: %s\n" % (out, text))
    if kind == "model":
        m = c.model(Length=12.0, Width=12.0, dx=4)
        m.input_file = p
        m.import_files({})
        m.process_input_to_model()
        v = m.H_SL
    else:
        v = c.mod("preprocessor").Preprocessor(p, timesteps=1).config_list[0]["H_SL"]
    c.check("the configuration reads the number", c.eq(v, float(text), exact=True))
