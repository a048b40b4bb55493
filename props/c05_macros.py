import re

from hypothesis import strategies as st
from mix import mix
import canon
import doc
from canon import ws
from gen import case, lst, pre
from grow import grown
from pbt import Facet, Property, Violation

# names: some are prefixes or extensions of each other and of known commands
NAMES = ["foo", "foobar", "fo", "skipper", "spaced", "divides", "itemx", "secti", "bb", "R", "myit", "capt", "reff", "citex", "textbfx", "Xyz", "averyverylongname", "foo.1", "a:b", "bb2"]
MNAMES = ["vv", "vvec", "norm", "argmin", "RR", "eps", "frak", "leftx", "summ", "inn"]
MBODY = [("\\mathbf{#1}", 1), ("\\mathbb{R}^{#1}", 1), ("\\left\\| #1 \\right\\|_{#2}", 2), ("\\alpha", 0), ("\\frac{#1}{#2}", 2), ("(#1)", 1),
         ("\\mathcal{L}", 0), ("\\{#1 \\mid #2\\}", 2), ("\\hat{#1}_{#2}^{#3}", 3), ("\\mathrm{d}#1", 1), ("[#1]", 1),
         ("\\alpha\\beta", 0), ("n-1", 0)]
MARG = ["x", "y_1", "\\beta", "a+b", "2", "\\frac{1}{n}", "{u}", "f(t)", "\\sqrt{2}"]
OSIGS = [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 1), (2, 1), (3, 1), (0, 0), (9, 0), (6, 1)]
SIGS = [(0, 0), (0, 0), (1, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1)]  # (number of arguments, first one optional)
DELIMS = [("(#1)", 1), ("#1.", 1), ("[#1|#2]", 2), ("#1:#2;", 2)]


PREFIX = ["\\protected\\def", "\\outer\\def", "\\global\\def", "\\long\\outer\\gdef", "\\global\\long\\def"]


def braced(s):
    """an optional argument: braces around one with brackets"""
    return "{%s}" % s if "[" in s or "]" in s else s


class Macro:
    def __init__(self, nargs, opt=None, body=(), marg=(), delim=None, star=None):
        self.nargs, self.opt, self.body, self.marg, self.delim, self.star = nargs, opt, list(body), set(marg), delim, star

    def shape(self):
        return (self.nargs, self.opt is not None, tuple(sorted(self.marg)), self.delim)


class Em(doc.Emitter):
    """emits the source with macros, and the model of their expansion"""

    def __init__(self, few=(0, 99)):
        super().__init__()
        self.few = few  # (first, number) of the names to use: few of them are often redefined
        self.mac = {}  # text macros by name
        self.mmac = {}  # math macros: name -> (nargs, default, body)
        self.refd = {}  # name -> shape its users rely on
        self.rank = {n: i for i, n in enumerate(NAMES)}
        self.used = set()
        self.nch = 0
        self.redef = 0

    # ---------------------------------------------------------- templates
    def template(self, nodes, nargs, rank, marg, plain=False):
        """draw a definition's body -> frozen nodes"""
        out = []
        for nd in nodes:
            k = nd["k"]
            if k == "a":
                if nargs:
                    out.append({"k": "A", "i": nd["i"] % nargs})
                else:
                    out.append({"k": "T", "s": self.word()})
            elif k == "am":
                if nargs:
                    i = nd["i"] % nargs
                    marg.add(i)
                    out.append({"k": "M", "s": "x_{#%d}^2" % (i + 1)})
                else:
                    out.append({"k": "M", "s": "x_{%s}" % self.word()})
            elif k == "sty":
                out.append({"k": "sty", "c": nd["c"], "x": self.template(nd["x"], nargs, rank, marg, plain)})
            elif k == "use":
                cand = [n for n in self.mac if self.rank[n] < rank and not (plain and self.mac[n].star)]
                if not cand:
                    out.append({"k": "T", "s": self.word()})
                    continue
                n = cand[nd["m"] % len(cand)]
                m = self.mac[n]
                self.refd[n] = m.shape()
                args = []
                for j in range(m.nargs):
                    if nargs and (nd["m"] + j) % 2 and not m.delim:
                        i = (nd["m"] + j) % nargs
                        if j in m.marg:
                            marg.add(i)
                        args.append([{"k": "A", "i": i}])
                    else:
                        args.append([{"k": "T", "s": self.word()}])
                out.append({"k": "U", "n": n, "args": args, "opt": m.opt is not None and bool(nd["m"] % 3), "sig": m.shape()})
            elif k == "key":
                out.append({"k": "C", "s": self.key()})
            else:
                out.append({"k": "T", "s": self.word() + doc.PUNCT[nd["f"] % len(doc.PUNCT)]})
        return out

    def freeze(self, nodes):
        out = []
        for nd in nodes:
            k = nd["k"]
            if k == "sty":
                out.append({"k": "sty", "c": nd["c"], "x": self.freeze(nd["x"])})
            elif k == "math":
                out.append({"k": "M", "s": self.math(nd["a"])})
            elif k == "use":
                out.append(self.call(nd))
            elif k == "cite":
                out.append({"k": "C", "s": self.key()})
            else:
                out.append({"k": "T", "s": self.text(nd["n"], 0)})
        return out

    def bracketed(self, n):
        """a word, now and then with brackets"""
        a = self.word()
        if n % 5 not in (1, 3):
            return a
        self.seen.add("brackets in an optional argument")
        return ["[%s]" % a, a + "]" + self.word(), "(%s, [%s])" % (a, self.word()), a + ")]"][n % 4]

    def call(self, nd):
        if not self.mac:
            return {"k": "T", "s": self.word()}
        names = list(self.mac)
        n = names[nd["m"] % len(names)]
        m = self.mac[n]
        self.used.add(n)
        if m.opt is not None:
            self.seen.add("optional argument")
        args = []
        for j in range(m.nargs):
            a = nd["args"][j] if j < len(nd["args"]) else []
            args.append(self.freeze(a) if a and j not in m.marg and not m.delim and not (j == 0 and m.opt is not None) else [{"k": "T", "s": self.word()}])
        if m.opt is not None and 0 not in m.marg:
            args[0] = [{"k": "T", "s": self.bracketed(nd.get("e", 0) + nd["m"])}]
        return {"k": "U", "n": n, "args": args, "opt": m.opt is not None and (2 if nd.get("e") == 3 and 0 not in m.marg else bool(nd.get("o"))), "end": nd.get("e", 0), "cs": nd.get("cs") and not m.delim and not m.star,
                "star": m.star is not None and nd.get("e", 0) % 2}

    # ---------------------------------------------------------- both sides
    def tex(self, nodes, hashes="#"):
        out = []
        for nd in nodes:
            k = nd["k"]
            if k == "T":
                out.append(nd["s"])
            elif k == "M":
                out.append("$%s$" % nd["s"].replace("#", hashes))
            elif k == "A":
                out.append("%s%d" % (hashes, nd["i"] + 1))
            elif k == "sty":
                out.append("\\%s{%s}" % (nd["c"], self.tex(nd["x"], hashes)))
            elif k == "C":
                out.append("\\cite{%s}" % nd["s"])
            elif k == "U":
                m = self.mac[nd["n"]]
                c = "\\csname %s\\endcsname" % nd["n"] if nd.get("cs") or not nd["n"].isalpha() else "\\" + nd["n"]
                if nd.get("star"):
                    c += ["*", " *"][nd["n"] > "g"]
                args = [self.tex(a, hashes) for a in nd["args"]]
                if m.delim:
                    s = m.delim
                    for j, a in enumerate(args):
                        s = s.replace("#%d" % (j + 1), a)
                    if s[0].isalpha() or s[0] == "#":
                        s = " " + s
                    out.append(c + s)
                    continue
                if m.opt is not None:
                    first, args = args[0], args[1:]
                    if nd["opt"] == 2:
                        c += "[]"
                    elif nd["opt"]:
                        c += "[%s]" % braced(first)
                for a in args:
                    c += "{%s}" % a
                if m.nargs == 0 or (m.opt is not None and m.nargs == 1 and not nd["opt"]):
                    c = [c + "{}", "{" + c + "}", c + "\\ ", c + "~"][nd.get("end", 0) % 4]
                out.append(c)
        return " ".join(out)

    def expand(self, nodes, args=()):
        out = []
        for nd in nodes:
            k = nd["k"]
            if k == "A":
                out += args[nd["i"]]
            elif k == "M":
                s = nd["s"]
                for i, a in enumerate(args):
                    if "#%d" % (i + 1) in s:
                        s = s.replace("#%d" % (i + 1), " ".join(x["s"] for x in a))
                out.append({"k": "M", "s": s})
            elif k == "sty":
                out.append({"k": "sty", "c": nd["c"], "x": self.expand(nd["x"], args)})
            elif k == "U":
                m = self.mac[nd["n"]] if "entry" not in nd else nd["entry"]
                sub = [self.expand(a, args) for a in nd["args"]]
                if m.opt is not None and nd["opt"] == 2:
                    sub[0] = []
                elif m.opt is not None and not nd["opt"]:
                    sub[0] = m.opt
                out += self.expand(m.star if nd.get("star") else m.body, sub)
            else:
                out.append(nd)
        return out

    def i_T(self, nd, styles):
        return nd["s"], self.w(nd["s"], styles)

    def i_M(self, nd, styles):
        return "$%s$" % nd["s"], [self.tok("equation", styles, content=ws(nd["s"]))]

    def i_C(self, nd, styles):
        return "\\cite{%s}" % nd["s"], [self.tok("citation", styles, content=[nd["s"]])]

    def i_use(self, nd, styles):
        u = [self.call(nd)]
        _, c = self.inl(self.expand(u), styles)
        return self.tex(u), c

    def i_glue(self, nd, styles):
        """a macro of plain text, joined to the text around it"""
        names = [n for n, m in self.mac.items() if n.isalpha() and m.nargs == 0 and len(m.body) == 1 and m.body[0]["k"] == "T"]
        a, b = self.word(), self.word()
        if not names:
            return a + " " + b, self.w(a + " " + b, styles)
        n = names[nd["m"] % len(names)]
        self.used.add(n)
        self.seen.add("glue")
        s = self.mac[n].body[0]["s"]
        src, txt = [("%s\\%s{}%s" % (a, n, b), a + s + b), ("%s \\%s-%s" % (a, n, b), a + " " + s + "-" + b), ("%s\\%s, %s" % (a, n, b), a + s + ", " + b),
                    ("(\\%s) %s %s" % (n, a, b), "(" + s + ") " + a + " " + b)][nd["e"] % 4]
        return src, self.w(txt, styles)

    def i_mm(self, nd, styles):
        """math with math macros"""
        src, want = [], []
        for t in nd["x"]:
            s, w = self.mterm(t)
            src.append(s)
            want.append(w)
        return "$%s$" % " + ".join(src), [self.tok("equation", styles, content="\0" + " + ".join(want))]

    def mterm(self, t):
        names = list(self.mmac)
        if not names:
            a = MARG[t["a"][0]]
            return a, a
        n = names[t["m"] % len(names)]
        nargs, default, body = self.mmac[n]
        self.used.add(n)
        src = "\\" + n
        args = [MARG[a] for a in t["a"]][:nargs]
        sub = list(args)
        if default is not None:
            if t["o"]:
                src += "[%s]" % args[0]
            else:
                sub[0] = default
            args = args[1:]
        src += "".join("{%s}" % a for a in args)
        w = body
        for i, a in enumerate(sub):
            w = w.replace("#%d" % (i + 1), a)
        if nargs == 0 and t["s"] % 2 and re.fullmatch(r"\\\w+(\{\w\})?", body):
            # the macro is a script without braces
            self.seen.add("bare script")
            one = "\1" + w + "\2"
            i = t["a"][0] % 4
            return ["x^%s", "y_%s z", "x_%s^2", "x_1^%s y"][i] % src, ["x^%s", "y_%s z", "x_%s^2", "x_1^%s y"][i] % one
        if t["s"] % 3 == 0:
            return src, "\1" + w + "\2"
        if t["s"] % 3 == 1:
            return "{%s}_{k}" % src, "{\1" + w + "\2}_{k}"
        return "\\sqrt{%s z}" % src, "\\sqrt{\1" + w + "\2 z}"

    def b_mb(self, nd):
        l, c = self.i_mm(nd, [])
        return "\\begin{align}\n%s &= 1 \\label{%s}\n\\end{align}" % (l[1:-1], "l"), [
            {"type": "equation", "content": c[0]["content"] + " &= 1", "display": "block", "labels": ["l"], "align": True, "_num": True}]

    # ---------------------------------------------------------- definitions
    def name(self, n, names=NAMES):
        return names[(n % self.few[1] + self.few[0]) % len(names)]

    def b_def(self, nd):
        kind = nd["kind"]
        name = nd.get("name") or self.name(nd["n"])
        if kind in ("let", "alias") and self.mac:
            # an alias for one of the macros so far
            low = min(self.rank[n] for n in self.mac)
            if self.rank[name] <= low and low + 1 < len(NAMES):
                name = NAMES[low + 1 + nd["n"] % (len(NAMES) - low - 1)]
        if not name.isalpha():
            # only \csname can make such a name
            if kind in ("let", "alias"):
                nd = dict(nd, s=2 + nd["s"] % 2)
            else:
                kind = ["csdef", "namedef"][nd["t"] % 2]
        if kind in ("let", "alias"):
            cand = [n for n in self.mac if self.rank[n] < self.rank[name]]
            if cand and self.mac[cand[nd["t"] % len(cand)]].delim is None:
                t = cand[nd["t"] % len(cand)]
                if not t.isalpha():
                    nd = dict(nd, s=2 if not name.isalpha() else 1 + nd["s"] % 2)
                if self.may(name, self.mac[t].shape()):
                    self.redef += name in self.mac
                    m = self.mac[t]
                    self.mac[name] = Macro(m.nargs, m.opt, m.body, m.marg, m.delim, m.star)
                    self.seen.add("let")
                    if nd["s"] % 6 == 1:
                        self.seen.add("let csname")
                        return "\\expandafter\\let\\expandafter\\%s\\csname %s\\endcsname" % (name, t), []
                    if nd["s"] % 6 == 2:
                        self.seen.add("let csname")
                        return "\\expandafter\\let\\csname %s\\expandafter\\endcsname\\csname %s\\endcsname" % (name, t), []
                    if nd["s"] % 6 == 3:
                        return "\\expandafter\\let\\csname %s\\endcsname%s\\%s" % (name, ["", "=", " = "][nd["t"] % 3], t), []
                    return "%s\\let\\%s%s\\%s" % (["", "\\global"][nd["s"] % 6 == 4], name, ["", "=", " = "][nd["t"] % 3], t), []
            kind = "def" if name.isalpha() else "csdef"
        nargs, opt = (OSIGS if kind in ("new", "csnew", "robust", "provide") else SIGS)[nd["s"] % 12 % (12 if kind in ("new", "csnew", "robust", "provide") else len(SIGS))]
        delim = None
        if kind == "def" and nd["s"] >= len(SIGS):
            delim, nargs = DELIMS[nd["s"] % len(DELIMS)]
        if kind in ("def", "gdef", "longdef", "edef", "csdef", "namedef", "prefix", "star", "star2"):
            opt = 0
        if kind in ("edef", "star"):
            nargs = 0
        marg = set()
        body = self.template(nd["b"], nargs, self.rank[name], marg, kind == "edef")
        default = [{"k": "T", "s": self.word() if 0 in marg else self.bracketed(nd["t"])}] if opt else None
        m = Macro(nargs, default, body, marg, delim)
        if not self.may(name, m.shape()):
            return "", []
        had = name in self.mac
        star = "*" if nd["t"] % 2 else ""
        sig = ("[%d]" % nargs if nargs else "") + ("[%s]" % braced(default[0]["s"]) if opt else "")
        btex = self.tex(body)
        nm = "{\\%s}" % name if nd["t"] % 3 else "\\%s" % name
        if star and nd["t"] % 4 == 3:
            star = " *"
        if kind == "new":
            cmd = "renewcommand" if had else "newcommand"
            src = "\\%s%s%s%s{%s}" % (cmd, star, nm, sig, btex)
        elif kind == "csnew":
            cmd = "renewcommand" if had else "newcommand"
            src = "\\expandafter\\%s%s\\csname %s\\endcsname%s{%s}" % (cmd, star, name, sig, btex)
        elif kind in ("star", "star2"):
            # a macro with a starred form
            m.star = self.template(nd["b"][::-1], nargs, self.rank[name], set(marg))
            if marg:
                return "", []
            stex = self.tex(m.star)
            cmd = ("\\renewcommand{\\%s}" if had else "\\newcommand{\\%s}") % name if nd["t"] % 2 else "\\def\\%s" % name
            if kind == "star":
                src = "\\makeatletter%s{\\@ifstar{%s}{%s}}\\makeatother" % (cmd, stex, btex)
            else:
                par = "".join("#%d" % (i + 1) for i in range(nargs))
                h = ["{\\%s@s}{\\%s@n}", "\\%s@s\\%s@n", " \\%s@s \\%s@n"][nd["t"] % 3] % (name, name)
                src = "\\makeatletter\n%s{\\@ifstar%s}\n\\def\\%s@s%s{%s}\n\\def\\%s@n%s{%s}\n\\makeatother" % (cmd, h, name, par, stex, name, par, btex)
        elif kind == "robust":
            src = "\\DeclareRobustCommand%s{\\%s}%s{%s}" % (star, name, sig, btex)
        elif kind == "provide":
            src = "\\providecommand%s%s%s{%s}" % (star, nm, sig, btex)
            self.seen.add("provide")
            if had:
                return src, []
        elif kind == "edef":
            m.body = self.freeze_calls(body)
            src = "\\%s\\%s{%s}" % (["edef", "xdef", "global\\edef"][nd["s"] % 3], name, btex)
        else:
            params = delim or "".join("#%d" % (i + 1) for i in range(nargs))
            if params[:1].isalpha():
                params = " " + params
            src = {"def": "\\def\\%s", "let": "\\def\\%s", "gdef": "\\gdef\\%s", "longdef": "\\long\\def\\%s", "csdef": "\\expandafter\\def\\csname %s\\endcsname",
                   "namedef": "\\makeatletter\\@namedef{%s}", "prefix": PREFIX[nd["s"] % len(PREFIX)] + "\\%s"}[kind] % name
            src += params + "{" + btex + "}" + ("\\makeatother" if kind == "namedef" else "")
        self.redef += had
        self.mac[name] = m
        self.seen.add(kind)
        if delim:
            self.seen.add("delim")
        return src, []

    def freeze_calls(self, nodes):
        out = []
        for nd in nodes:
            nd = dict(nd)
            if nd["k"] == "U":
                nd["entry"] = self.frozen(self.mac[nd["n"]])
                nd["args"] = [self.freeze_calls(a) for a in nd["args"]]
            elif nd["k"] == "sty":
                nd["x"] = self.freeze_calls(nd["x"])
            out.append(nd)
        return out

    def frozen(self, m):
        return Macro(m.nargs, m.opt, self.freeze_calls(m.body), m.marg, m.delim, m.star)

    def may(self, name, shape):
        return name not in self.refd or self.refd[name] == shape

    def b_chain(self, nd):
        """macros that use each other, one after the other"""
        n, nargs = nd["n"] if self.nch < 4 else 2, nd["t"] % 2
        names = ["ch" + doc._letters(self.nch * 100 + i + 30) for i in range(n)]
        self.nch += 1
        a, w = self.word(), self.word()
        arg = ["", "#1"][nargs]
        src = []
        for i, x in enumerate(names):
            b = "%s %s" % (w, arg) if i == 0 else "\\%s" % names[i - 1] + ["{}", "{#1}"][nargs]
            src.append(("\\newcommand{\\%s}%s{%s}" if nd["s"] else "\\def\\%s%s{%s}") % (x, ["", "[1]" if nd["s"] else "#1"][nargs], b))
        src = "\n".join(src if nd["o"] else src[::-1]) + "\n\\%s{%s}" % (names[-1], ["", a][nargs])
        return src, self.w(w, []) + (self.w(a, []) if nargs else [])

    def b_relet(self, nd):
        """an alias keeps the meaning when the original changes"""
        cand = list(self.mac)
        if not cand:
            return self.b_def(dict(nd, kind="new"))
        t = cand[nd["m"] % len(cand)]
        a, _ = self.b_def(dict(nd, kind="let", t=list(n for n in self.mac).index(t)))
        if nd["kind"] == "provide":
            t = list(self.mac)[-1]
        b, _ = self.b_def(dict(nd, kind=nd["kind"], name=t))
        return a + "\n" + b, []

    def b_inner(self, nd):
        """a macro that defines another one"""
        name, maker = self.name(nd["n"], NAMES[:-3]), "make" + "abcdefgh"[nd["t"] % 8]
        if not self.may(name, (1, False, (), None)):
            return "", []
        a = self.word()
        body = [{"k": "A", "i": 0}, {"k": "T", "s": self.word()}, {"k": "I"}]
        if nd["t"] % 2:
            body.reverse()
        ib = " ".join("##1" if x["k"] == "A" else "#1" if x["k"] == "I" else x["s"] for x in body)
        had = name in self.mac
        if nd["s"] % 2:
            inner = "\\%snewcommand{\\%s}[1]{%s}" % ("re" if had else "", name, ib)
        else:
            inner = "\\def\\%s##1{%s}" % (name, ib)
        self.mac[name] = Macro(1, None, [{"k": "T", "s": a} if x["k"] == "I" else x for x in body])
        self.redef += had
        self.seen.add("inner")
        if maker in self.used:
            d = "\\renewcommand"
        else:
            d = "\\newcommand"
        self.used.add(maker)
        return "%s{\\%s}[1]{%s}\n\\%s{%s}" % (d, maker, inner, maker, a), []

    def b_mdef(self, nd):
        name = self.name(nd["n"], MNAMES)
        body, nargs = MBODY[nd["b"]]
        kind, had, default = nd["kind"], name in self.mmac, None
        self.seen.add("m" + kind)
        self.redef += had
        if kind == "op":
            star = "*" if nd["o"] else ""
            t = ["rank", "arg\\,min", "Tr", "lim sup"][nd["b"] % 4]
            self.mmac[name] = (0, None, t)
            return "\\DeclareMathOperator%s{\\%s}{%s}" % (star, name, t), []
        if kind == "pair":
            o, c = [("\\lvert", "\\rvert"), ("\\{", "\\}"), ("(", ")"), ("\\langle", "\\rangle")][nd["b"] % 4]
            self.mmac[name] = (1, None, o + "\1#1\2" + c)
            return "\\DeclarePairedDelimiter{\\%s}{%s}{%s}" % (name, o, c), []
        if kind == "def":
            self.mmac[name] = (nargs, None, body)
            return "\\def\\%s%s{%s}" % (name, "".join("#%d" % (i + 1) for i in range(nargs)), body), []
        opt = ""
        if nargs and nd["o"]:
            default = MARG[nd["b"] % len(MARG)]
            if "{" in default:
                default = "k"
            opt = "[%s]" % default
        self.mmac[name] = (nargs, default, body)
        return "\\%snewcommand{\\%s}%s%s{%s}" % ("re" if had else "", name, "[%d]" % nargs if nargs else "", opt, body), []


TOK = re.compile(r"\\[A-Za-z]+|\\.|\S|[\1\2]", re.S)


def math_eq(got, want):
    """same formula; an expansion may be wrapped in braces"""
    g, w = TOK.findall(got), TOK.findall(want)
    rx = "".join("(?:\\{ )?" if t == "\1" else "(?:\\} )?" if t == "\2" else re.escape(t) + " " for t in w)
    return re.fullmatch(rx, "".join(t + " " for t in g)) is not None


def fix_math(got, want):
    """in the model, formulas with macros are marked by NUL; replace them by what was
    output where it is the same formula"""
    if isinstance(want, dict):
        if want.get("type") == "equation" and want["content"].startswith("\0"):
            w = want["content"][1:]
            if isinstance(got, dict) and isinstance(got.get("content"), str) and math_eq(got["content"], w):
                want["content"] = got["content"]
            else:
                want["content"] = ws(w.replace("\1", "").replace("\2", ""))
            return
        for k in want:
            fix_math(got.get(k) if isinstance(got, dict) else None, want[k])
    elif isinstance(want, list):
        for i, x in enumerate(want):
            fix_math(got[i] if isinstance(got, list) and i < len(got) else None, x)


a = doc.fd("a", i=st.integers(0, 2))
t1 = doc.fd("t", f=st.integers(0, 8))
tmpl0 = mix(a, a, a, t1, doc.fd("am", i=st.integers(0, 2)), doc.fd("use", m=st.integers(0, 20)), doc.fd("use", m=st.integers(0, 20)), doc.fd("key"))
tmpl = mix(tmpl0, tmpl0, doc.fd("sty", c=st.sampled_from(["textbf", "emph", "texttt"]), x=lst(tmpl0, 1, 2)))
body = mix(lst(t1, 1, 1), lst(tmpl, 1, 4))
KINDS = ["new", "new", "new", "new", "new", "new", "def", "def", "gdef", "longdef", "edef", "csdef", "robust", "provide", "let", "let", "let", "csnew", "namedef", "prefix", "star", "star2"]
bdef = doc.fd("def", kind=st.sampled_from(KINDS), n=st.integers(0, len(NAMES) - 1), s=st.integers(0, 11), t=st.integers(0, 11), b=body)
inner = doc.fd("inner", n=st.integers(0, len(NAMES) - 1), s=st.integers(0, 1), t=st.integers(0, 7))
mdef = doc.fd("mdef", kind=st.sampled_from(["new", "new", "def", "op", "pair"]), n=st.integers(0, len(MNAMES) - 1), b=st.integers(0, len(MBODY) - 1), o=st.booleans())


def use(d):
    leaf = mix(doc.s_text, doc.s_math, doc.fd("cite"))
    x = leaf if d == 0 else mix(leaf, st.deferred(lambda: use(d - 1)), doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=lst(leaf, 1, 2)))
    return doc.fd("use", m=st.integers(0, 40), args=lst(lst(x, 1, 2), 0, 3), o=st.booleans(), e=st.integers(0, 3), cs=st.sampled_from([False, False, False, True]))


mterm = st.fixed_dictionaries({"m": st.integers(0, 30), "a": lst(st.integers(0, len(MARG) - 1), 3, 3), "o": st.booleans(), "s": st.integers(0, 2)})
u = use(1)
glue = doc.fd("glue", m=st.integers(0, 20), e=st.integers(0, 3))
mm = doc.fd("mm", x=lst(mterm, 1, 3))
leaf = mix(u, u, u, glue, doc.s_text, mm)
inl = mix(leaf, leaf, leaf, doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=lst(leaf, 1, 2)), doc.fd("fn", x=lst(leaf, 1, 2)), doc.fd("href", x=lst(u, 1, 1)),
                doc.fd("decl", c=st.sampled_from(["bf", "it", "large"]), x=lst(leaf, 1, 2)))
par = doc.fd("par", x=lst(inl, 1, 4))
cell = mix(st.just([]), lst(mix(u, doc.s_text, mm), 1, 2))
leafb = mix(par, par, doc.fd("mb", x=lst(mterm, 1, 2)))
blk = mix(
    par, par, par, leafb,
    doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=lst(mix(u, u, doc.s_text, mm), 1, 2), lab=st.integers(0, 1)),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", title=doc.opt(lst(doc.s_word, 1, 1)), x=lst(leafb, 1, 2)), 1, 2)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof"]), lab=st.booleans(), x=lst(leafb, 1, 2).map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=lst(mix(u, doc.s_text, mm), 1, 2), lab=st.integers(0, 1), x=lst(mix(doc.s_img, doc.s_tab(cell=cell)), 1, 1)),
    doc.s_tab(cell=cell),
    doc.fd("env", e=st.sampled_from(["quote", "center"]), x=lst(leafb, 1, 2)),
)
relet = doc.fd("relet", kind=st.sampled_from(["new", "def", "provide", "robust", "csdef"]), m=st.integers(0, 9), n=st.integers(0, len(NAMES) - 1), s=st.integers(0, 11), t=st.integers(0, 11), b=body)
d = mix(bdef, bdef, bdef, inner, mdef, relet)


few = mix(st.just((0, 99)), st.tuples(st.integers(0, len(NAMES) - 1), st.integers(2, 5)))
chain = doc.fd("chain", n=st.integers(2, 40), t=st.integers(0, 1), s=st.integers(0, 1), o=st.booleans())


def run(c):
    em = Em(c["few"])
    l1, f1 = em.blks(c["defs"])
    l2, f2 = em.blks(c["doc"])
    src = l1 + "\n\n" + l2
    if c["wrap"]:
        src = "\\documentclass{article}\n%s\n\\begin{document}\n%s\n\\end{document}" % (l1, l2)
    got = canon.canon(canon.process(src, c["pre"] or c["wrap"], spaces=False))
    if c["wrap"] and len(got) == 1 and isinstance(got[0], dict) and got[0]["type"] == "document":
        got = got[0]["content"]
    want = doc.assemble(f1 + f2)
    fix_math(got, want)
    canon.require_canon(got, want, src)
    if em.used:
        return sorted(em.seen) + (["redefinition"] if em.redef else [])


PROPERTY = Property("C05", [
    Facet("macros", case(defs=lst(d, 1, 4), doc=lst(mix(blk, blk, blk, blk, blk, blk, d, d, chain), 1, 5), pre=pre, wrap=st.booleans(), few=few), run, quick=2600, thorough=60000, shards=8,
          rule="documents defining, redefining and using macros in text, math, headings, captions, cells and arguments; oracle: an own expander"),
], rule="a case is non-trivial when a macro defined in it is used")
grown(PROPERTY, 150)
