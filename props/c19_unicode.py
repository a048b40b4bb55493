import re
import unicodedata

import canon
import doc
from gen import case, ix, lst, pre
from hypothesis import strategies as st
from mix import mix
from grow import big as bigfacet
from pbt import Facet, Property, Violation

# ---------------------------------------------------------------- the tables (written from the LaTeX side)
ACC = {"'": 0x301, "`": 0x300, '"': 0x308, "^": 0x302, "~": 0x303, "=": 0x304, ".": 0x307, "c": 0x327, "H": 0x30b, "k": 0x328, "b": 0x331, "d": 0x323, "r": 0x30a, "u": 0x306, "v": 0x30c}
ACCS = list(ACC)
MACC = {"vec": 0x20d7, "dot": 0x307, "hat": 0x302, "check": 0x30c, "breve": 0x306, "acute": 0x301, "grave": 0x300, "tilde": 0x303, "bar": 0x305, "ddot": 0x308}
MACCS = list(MACC)
LETTERS = "aeiouAEIOUcsznyCSZNYgGhHtTdDlLrRwWbBkKpPmMfFvVxXjJqQ"
LIGS = {"ae": "æ", "AE": "Æ", "o": "ø", "O": "Ø", "aa": "å", "AA": "Å", "oe": "œ", "OE": "Œ"}
LIG = list(LIGS)
DOUBLE = ["'^", "`^", "d^", "^d", "'=", '\'"', "=.", "v\"", "u'", "~^"]
SYM = {
    # letters
    "ss": "ß", "o": "ø", "O": "Ø", "ae": "æ", "AE": "Æ", "oe": "œ", "OE": "Œ", "aa": "å", "AA": "Å", "l": "ł", "L": "Ł", "i": "ı", "dh": "ð", "DH": "Ð", "th": "þ", "TH": "Þ", "dj": "đ", "DJ": "Đ", "ng": "ŋ", "NG": "Ŋ",
    "ij": "ĳ", "IJ": "Ĳ",
    # text symbols
    "S": "§", "copyright": "©", "textcopyright": "©", "textregistered": "®", "texttrademark": "™", "textdegree": "°", "textbullet": "•", "textdagger": "†", "textdaggerdbl": "‡", "textsection": "§", "textparagraph": "¶",
    "textendash": "–", "textemdash": "—", "textquoteleft": "‘", "textquoteright": "’", "textquotedblleft": "“", "textquotedblright": "”", "guillemotleft": "«", "guillemotright": "»", "guilsinglleft": "‹", "guilsinglright": "›",
    "quotedblbase": "„", "quotesinglbase": "‚", "textexclamdown": "¡", "textquestiondown": "¿", "textellipsis": "…", "textperthousand": "‰", "textpertenthousand": "‱", "texteuro": "€", "textsterling": "£", "textyen": "¥", "textcent": "¢",
    "textcurrency": "¤", "textdollar": "$", "textasciitilde": "~", "textasciicircum": "^", "textless": "<", "textgreater": ">", "textbackslash": "\\", "textpm": "±", "texttimes": "×", "textdiv": "÷", "textmu": "µ", "textohm": "Ω",
    "textonehalf": "½", "textonequarter": "¼", "textthreequarters": "¾", "textonesuperior": "¹", "texttwosuperior": "²", "textthreesuperior": "³", "textordfeminine": "ª", "textordmasculine": "º", "textlnot": "¬", "textbrokenbar": "¦",
    "textnumero": "№", "textcelsius": "℃", "textleftarrow": "←", "textrightarrow": "→", "textuparrow": "↑", "textdownarrow": "↓", "textperiodcentered": "·", "textasteriskcentered": "⁎", "textreferencemark": "※", "textinterrobang": "‽",
    "textvisiblespace": "␣", "textopenbullet": "◦", "textmusicalnote": "♪", "textwon": "₩", "textlira": "₤", "textbaht": "฿", "textdong": "₫", "textpeso": "₱", "textcolonmonetary": "₡", "textflorin": "ƒ", "textschwa": "ə",
    "textservicemark": "℠", "textestimated": "℮", "textrecipe": "℞", "textasciidieresis": "¨", "textquotesingle": "'", "textasciigrave": "`",
    "checkmark": "✓", "dots": "...", "ldots": "…",
    # symbols of math used in text
    "infty": "∞", "forall": "∀", "exists": "∃", "nabla": "∇", "partial": "∂", "pm": "±", "mp": "∓", "leq": "≤", "geq": "≥", "neq": "≠", "approx": "≈", "equiv": "≡", "in": "∈", "notin": "∉", "subset": "⊂", "supset": "⊃", "cup": "∪", "cap": "∩",
    "oplus": "⊕", "otimes": "⊗", "rightarrow": "→", "leftarrow": "←", "Rightarrow": "⇒", "Leftarrow": "⇐", "leftrightarrow": "↔", "mapsto": "↦", "ell": "ℓ", "hbar": "ℏ", "aleph": "ℵ", "sum": "∑", "prod": "∏", "int": "∫", "angle": "∠",
    "perp": "⊥", "parallel": "∥", "therefore": "∴", "because": "∵", "langle": "⟨", "rangle": "⟩", "sharp": "♯", "flat": "♭", "natural": "♮", "blacksquare": "∎", "square": "□", "ll": "≪", "gg": "≫", "wedge": "∧", "vee": "∨",
    "uparrow": "↑", "downarrow": "↓", "nearrow": "↗", "searrow": "↘", "longrightarrow": "⟶", "hookrightarrow": "↪", "propto": "∝", "simeq": "≃", "cong": "≅", "prec": "≺", "succ": "≻",
}
for n in "alpha beta gamma delta zeta eta theta iota kappa lambda mu nu xi pi rho sigma tau upsilon chi psi omega".split():
    SYM[n] = unicodedata.lookup("GREEK SMALL LETTER " + n.replace("lambda", "lamda").upper())
for n in "Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega".split():
    SYM[n] = unicodedata.lookup("GREEK CAPITAL LETTER " + n.replace("Lambda", "Lamda").upper())
CYR = {"a": "A", "b": "BE", "v": "VE", "g": "GHE", "d": "DE", "e": "IE", "zh": "ZHE", "z": "ZE", "i": "I", "ishrt": "SHORT I", "k": "KA", "l": "EL", "m": "EM", "n": "EN", "o": "O", "p": "PE", "r": "ER", "s": "ES", "t": "TE", "u": "U",
       "f": "EF", "h": "HA", "c": "TSE", "ch": "CHE", "sh": "SHA", "shch": "SHCHA", "hrdsn": "HARD SIGN", "ery": "YERU", "sftsn": "SOFT SIGN", "erev": "E", "yu": "YU", "ya": "YA", "yo": "IO"}
for k, n in CYR.items():
    SYM["cyr" + k] = unicodedata.lookup("CYRILLIC SMALL LETTER " + n)
    SYM["CYR" + k.upper()] = unicodedata.lookup("CYRILLIC CAPITAL LETTER " + n)
for i in range(1, 11):
    SYM["ding{%d}" % (171 + i)] = chr(0x245f + i)
SYM.update({"ding{51}": "✓", "ding{55}": "✗", "ding{72}": "★", "ding{110}": "■", "ding{108}": "●"})
SYMS = list(SYM)
ESC = ["%", "&", "_", "#", "$", "{", "}"]
OPT = "\x00"
PUNCT = [",", ".", ";", ":", "!", "?", "-", "--", "---", "(", ")", "/", "=", "+", "*", "1", "42", "@"]
MATH = ["\\hat{x} + \\tilde y", "\\'a \\~n", "\\alpha \\ss", "a \\% b \\_ c", "\\ldots \\S", "``x''", "\\bar\\i \\{ x \\}", "\\text{\\'e} \\geq"]
STYLES = {"textbf": ["bold"], "emph": ["italic"], "textsc": ["small-caps"], "texttt": ["monospace"]}


def nfc(s):
    s = re.sub("ı(?=[\u0300-\u036f])", "i", unicodedata.normalize("NFD", s))
    return unicodedata.normalize("NFC", s)


def acc(a, base, form):
    """the ways to write an accent on the source of a letter"""
    cs = base.startswith("\\")
    cw = a.isalpha()
    if cs:
        f = ["\\%s{%s}", "\\%s%s", "{\\%s{%s}}", "{\\%s%s}", "\\%s{%s{}}"][form % 5]
        if "{" in base[1:]:
            f = ["\\%s{%s}", "{\\%s{%s}}"][form % 2]
        return f % (a, base)
    f = ["\\%s{%s}", "\\%s %s" if cw else "\\%s%s", "{\\%s{%s}}", "{\\%s %s}" if cw else "{\\%s%s}", "\\%s %s", "\\%s {%s}", "\\%s{ %s }", "\\%s  %s", "\\%s\n%s", "\\%s \n {%s}"][form % 10]
    return f % (a, base)


class R:
    """renders pieces: source, and expected items ("t", text, styles) or ("o", ...)"""

    def __init__(self, pre):
        self.pre = pre
        self.kinds = set()
        self.n = 0

    def word(self, i):
        self.n += 1
        return ["qua", "no", "Ber", "lo", "tz", "I", "ext", "W"][i % 8]

    def piece(self, p, quotes=True):
        """-> source, expected text"""
        k = p["k"]
        self.kinds.add(k)
        if k == "word":
            w = self.word(p["i"])
            return w, w
        if k == "acc":
            a = ACCS[p["a"] % len(ACCS)]
            b = LETTERS[p["b"] % len(LETTERS)]
            rest = "xy"[: p["rest"]] if "{" in acc(a, b, p["f"]) else ""
            s = acc(a, b, p["f"])
            if rest and p["f"] % 7 in (0, 2, 5):
                s = acc(a, b + rest, p["f"])
                return s, b + chr(ACC[a]) + rest
            return s, b + chr(ACC[a])
        if k == "dotless":
            a = ACCS[p["a"] % len(ACCS)]
            b = "ij"[p["b"] % 2]
            s = [acc(a, "\\" + b, p["f"]), "\\%s\\%s{}" % (a, b), "\\%s{{\\%s}}" % (a, b)][p["b"] % 3 if p["f"] % 3 == 0 else 0]
            return s, b + chr(ACC[a])
        if k == "lig":
            a = "'=`\"^~"[p["a"] % 6]
            b = LIG[p["b"] % len(LIG)]
            return acc(a, "\\" + b, p["f"]), unicodedata.normalize("NFD", LIGS[b]) + chr(ACC[a])
        if k == "dbl":
            o, i = DOUBLE[p["a"] % len(DOUBLE)]
            b = "aeouAEOU"[p["b"] % 8]
            inner = [("\\%s{%s}" % (i, b)), "\\%s%s%s" % (i, " " if i.isalpha() else "", b)][p["f"] % 2]
            s = ["\\%s{%s}" % (o, inner), "\\%s%s" % (o, inner), "{\\%s{%s}}" % (o, inner)][p["f"] // 2 % 3]
            return s, b + chr(ACC[i]) + chr(ACC[o])
        if k == "macc":
            a = MACCS[p["a"] % len(MACCS)]
            b = LETTERS[p["b"] % len(LETTERS)]
            return ["\\%s{%s}", "\\%s %s", "{\\%s{%s}}"][p["f"] % 3] % (a, b), b + chr(MACC[a])
        if k == "sym":
            n = SYMS[p["i"] % len(SYMS)]
            if n[-1] == "}":
                return ["\\%s", "{\\%s}"][p["f"] % 2] % n, SYM[n]
            return ["\\%s{}", "{\\%s}", "\\%s", "\\%s"][p["f"] % 4] % n, SYM[n]
        if k == "esc":
            c = ESC[p["i"] % len(ESC)]
            return "\\" + c, c
        if k == "hyph":
            return ["k\\-", "k\\/", "k{}", "k\\-"][p["i"] % 4], "k"
        if k == "sp":
            return ["\\ ", "\\,", "\\;", "~", " "][p["i"] % 5], "~" if p["i"] % 5 == 3 else " "
        if k == "punct":
            c = PUNCT[p["i"] % len(PUNCT)]
            return c, c
        if k == "brk":  # a line break right before something that starts with a mark
            s, e = self.piece(p["x"])
            self.kinds.add(k)
            return "k\\\\" + s, "k " + e
        if k == "quote":
            o, c, q = [("``", "''", '"'), ("`", "'", "'")][p["i"] % 2]
            s, e = self.seq(p["x"])
            # what is next to the marks is not one of them
            s, e = "k" + s, "k" + e
            if re.search(r"\\[a-zA-Z]+$", s) or e[-1] in "'`\"":
                s, e = s + "{}k", e + "k"
            return o + s + c, (q + e + q if self.pre else o + e + c)
        raise AssertionError(k)

    def seq(self, xs):
        s = e = ""
        for x in xs:
            ps, pe = self.piece(x["p"])
            s, e = self.join(s, e, ps, pe, x["g"])
        return s, e

    def join(self, s, e, ps, pe, glue):
        if s and not glue:
            ps, pe = " " + ps, " " + pe
        if re.search(r"\\[a-zA-Z@]+$", s) and ps:
            if ps[0].isalpha():
                s, e = s + " ", e + OPT
            elif ps[0] in "{[":
                s += "{}"
            elif ps[0] == " ":
                pe = OPT + pe.lstrip(" ")
        return s + ps, e + pe

    # ------------------------------------------------ runs of text, formulas, citations, styles
    def inline(self, xs, styles):
        s, out = "", [["t", "", styles]]
        for x in xs:
            k = x["p"]["k"]
            if k == "math":
                m = MATH[x["p"]["i"] % len(MATH)]
                ps, item = "$%s$" % m, ["o", "equation", canon.ws(m)]
            elif k == "cite":
                ps, item = "\\cite{k%d}" % x["p"]["i"], ["o", "citation", "k%d" % x["p"]["i"]]
            elif k == "verb":
                v = ["\\'e", "``x''", "\\ss\\S", "\\%", "\\-x", "\\~n"][x["p"]["i"] % 6]
                ps, item = "\\verb|%s|" % v, ["o", "code", v]
            elif k == "sty":
                c = list(STYLES)[x["p"]["i"] % 4]
                i, o = self.inline(x["p"]["x"], doc.dedupe(styles + STYLES[c]) if hasattr(doc, "dedupe") else list(dict.fromkeys(styles + STYLES[c])))
                ps, item = "\\%s{%s}" % (c, i), o
            else:
                ps, pe = self.piece(x["p"])
                s, out[-1][1] = self.join(s, out[-1][1], ps, pe, x["g"])
                continue
            if re.search(r"\\[a-zA-Z@]+$", s) and x["g"]:
                s += "{}"
            s += ("" if x["g"] else " ") + ps
            out += item if isinstance(item[0], list) else [item]
            out.append(["t", "", styles])
            self.kinds.add(k)
        return s, out

    def blocks(self, bs):
        s, out = [], []
        for b in bs:
            k = b["k"]
            i, o = self.inline(b["x"], [])
            if k == "par":
                s.append(i)
                out += [o, "par"]
            elif k == "mac":
                name = "\\mm" + "abcdefgh"[len(s) % 8] + "xyz"[len(s) // 8 % 3]
                i, o = self.inline([x for x in b["x"] if x["p"]["k"] != "verb"], [])
                s.append("\\newcommand{%s}{%s}\n%s{}" % (name, i, name))
                out += [o, "par"]
            elif k == "fn":
                s.append("\\footnote{%s}" % i)
                out += ["<footnote", o, ">", "par"]
            elif k == "title":
                i, o = self.inline([x for x in b["x"] if x["p"]["k"] not in ("verb",)], [])
                t = ["caption", "title", "footnote"][b["i"] % 3]
                s.append("\\%s{%s}" % (t, i))
                out += ["<" + t, o, ">", "par"]
            elif k == "list":
                s.append("\\begin{itemize}\\item %s\\end{itemize}" % ("{}" + i))
                out += ["<list", "<item", o, ">", ">", "par"]
            elif k == "quote":
                s.append("\\begin{quote}\n%s\n\\end{quote}" % i)
                out += ["<quote", o, ">", "par"]
            elif k == "cells":
                i2, o2 = self.inline(b["y"], [])
                s.append("\\begin{tabular}{ll}\nu%s & v%s \\\\\n\\end{tabular}" % ("{}" + i, "{}" + i2))
                o[0][1], o2[0][1] = "u" + o[0][1], "v" + o2[0][1]
                out += ["<tabular", o, "|", o2, ">", "par"]
            self.kinds.add("in " + k)
        return "\n\n".join(s), out


def flat_exp(x):
    out = []
    for i in x:
        if isinstance(i, str):
            out.append(i)
        else:
            out += i
    return merge([["t", " ", []] if o == "par" else o for o in out], OPT)


def merge(xs, sep=""):
    out = []
    for x in xs:
        if isinstance(x, list) and x[0] == "t":
            if not x[1].strip(" " + OPT):
                # white space alone does not count, but keeps what is around it apart
                if out and isinstance(out[-1], list) and out[-1][0] == "t":
                    out[-1] = ["t", out[-1][1] + (sep if x[2] else x[1]), out[-1][2]]
                continue
            if out and isinstance(out[-1], list) and out[-1][0] == "t" and out[-1][2] == x[2]:
                # how styled texts side by side are joined is up to other properties
                out[-1] = ["t", out[-1][1] + (sep if x[2] else "") + x[1], x[2]]
                continue
        out.append(x)
    return out


def flat_got(toks):
    out = []
    for t in toks if isinstance(toks, list) else [toks]:
        if isinstance(t, str):
            out.append(["t", t, []])
            continue
        k = t["type"]
        if k == "text":
            out.append(["t", t["content"], t.get("styles", [])])
        elif k in ("group", "document"):
            out += flat_got(t["content"])
        elif k == "equation":
            out.append(["o", k, canon.ws(t["content"] if isinstance(t["content"], str) else str(t["content"]))])
        elif k == "citation":
            out.append(["o", k, ",".join(t["content"])])
        elif k == "code":
            out.append(["o", k, t["content"]])
        elif k == "tabular":
            out.append("<tabular")
            for i, c in enumerate(c for row in t["content"] for c in row):
                out += (["|"] if i else []) + flat_got(c if c is not None else [])
            out.append(">")
        else:
            out += ["<" + k] + flat_got(t.get("content") or []) + [">"]
    return merge(out)


def pattern(e):
    e = re.sub("[ ]*" + OPT + "[ " + OPT + "]*", OPT, e.strip(" " + OPT))
    e = nfc(re.sub(" +", " ", e))
    return "".join(" ?" if c == OPT else re.escape(c) for c in e)


def same(g, e):
    if isinstance(g, str) or isinstance(e, str) or e[0] != "t" or g[0] != "t":
        return g == e
    return g[2] == e[2] and re.fullmatch(pattern(e[1]), nfc(canon.ws(g[1]))) is not None


def run(c):
    r = R(c["pre"])
    src, exp = r.blocks(c["doc"])
    exp = flat_exp(exp)
    got = flat_got(canon.process(src, c["pre"], spaces=False))
    if len(got) != len(exp) or not all(same(g, e) for g, e in zip(got, exp)):
        raise Violation("%r\n gives %r\n and not %r" % (src, got, exp))
    k = r.kinds & {"acc", "dotless", "lig", "dbl", "macc", "sym", "esc", "hyph", "quote"}
    if k:
        return sorted(r.kinds)


big = st.integers(0, 999)
f = st.integers(0, 34)


def fd(k, **kw):
    return doc.fd(k, **kw)


base = [fd("acc", a=ix(ACCS), b=ix(LETTERS), f=f, rest=st.integers(0, 2)), fd("acc", a=ix(ACCS), b=ix(LETTERS), f=f, rest=st.just(0)), fd("dotless", a=ix(ACCS), b=st.integers(0, 5), f=f), fd("lig", a=st.integers(0, 5), b=ix(LIG), f=f),
        fd("dbl", a=ix(DOUBLE), b=st.integers(0, 7), f=st.integers(0, 5)), fd("macc", a=ix(MACCS), b=ix(LETTERS), f=st.integers(0, 2)), fd("sym", i=ix(SYMS), f=st.integers(0, 3)), fd("sym", i=ix(SYMS), f=st.integers(0, 3)), fd("esc", i=ix(ESC)),
        fd("word", i=st.integers(0, 7)), fd("word", i=st.integers(0, 7))]
plain = mix(*base, fd("hyph", i=st.integers(0, 3)), fd("sp", i=st.integers(0, 4)), fd("punct", i=ix(PUNCT)))


def gl(s):
    return st.fixed_dictionaries({"p": s, "g": st.booleans()})


quote = fd("quote", i=st.integers(0, 1), x=lst(gl(mix(*base)), 1, 4))
others = [fd("math", i=ix(MATH)), fd("cite", i=st.integers(0, 9)), fd("verb", i=st.integers(0, 5))]
sty = fd("sty", i=st.integers(0, 3), x=lst(gl(mix(plain, plain, plain, quote)), 1, 4))
brk = fd("brk", x=mix(quote, fd("acc", a=ix(ACCS), b=ix(LETTERS), f=f, rest=st.integers(0, 2)), fd("sym", i=ix(SYMS), f=st.integers(0, 3)), fd("esc", i=ix(ESC))))
inl = lst(gl(mix(plain, plain, plain, plain, plain, quote, sty, brk, *others)), 1, 7)
noverb = lst(gl(mix(plain, plain, plain, plain, plain, quote, sty, *others[:2])), 1, 5)
blk = mix(fd("par", x=inl), fd("par", x=inl), fd("mac", x=noverb), fd("title", i=st.integers(0, 2), x=noverb), fd("list", x=inl), fd("quote", x=inl), fd("cells", x=noverb, y=noverb))

PROPERTY = Property("C19", [
    Facet("texts", case(doc=lst(blk, 1, 3), pre=pre), run, quick=2400, thorough=60000, shards=8,
          rule="accents on all bases, letters, symbols, escaped characters, quotes and hyphens in all writing forms, glued together or spaced, in paragraphs, styles, macros, titles, footnotes, items and cells, next to formulas and code"),
    bigfacet(case(doc=lst(blk, 1, 3), pre=pre), run),
], "a case is non-trivial when it holds an accent, symbol, escape, hyphen or quote",
    assumptions=["a space that ends a control word may be kept or dropped (the tests require that it is kept)", "quotation marks are converted by preprocessing only"])
