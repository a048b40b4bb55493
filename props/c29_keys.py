from hypothesis import strategies as st
from mix import mix
import doc
from canon import dedupe
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

FAMS = ["fam", "my opts", "x-y"]
MACS = ["fam", "myopts", "xy"]
KEYS = ["color", "title", "fig-width", "a", "long name", "colorb"]
NAMES = ["vcolor", "vtitle", "vwidth", "va", "vlong", "vcolorb"]
SW = ["swcol", "swtit", "swwid", "swa", "swlong", "swcolb"]
TEXT = ["text", "twice", "style", "group", "none", "via", "foot"]


def style(can, styles):
    out = []
    for x in can:
        if isinstance(x, dict):
            x = dict(x)
            if styles:
                x["styles"] = dedupe(styles + x.get("styles", []))
        else:
            x = ["w", x[1], dedupe(styles + x[2])]
        out.append(x)
    return out


class Em(doc.Emitter):
    def __init__(self):
        super().__init__()
        self.kinds = set()
        self.defs = {}  # (family, key) -> definition
        self.vals = {}  # what the key that keeps its value keeps
        self.plain = []  # values so far
        self.sw = {}  # switches set by keys

    def val(self, v):
        """-> (source in braces or not, content)"""
        if v["f"] in (0, 1):  # only words: what is between them is in the value
            a, b, c = self.word(), self.word(), self.word()
            s = ["%s, %s=%s", "%s=%s,%s"][v["f"]] % (a, b, c)
            self.kinds.add("protected value")
            return "{%s}" % s, self.w(s, [])
        if v["f"] == 2:
            s = "%s=%s" % (self.word(), self.word())
            self.kinds.add("value with =")
            return s, self.w(s, [])
        if v["f"] == 3:
            self.kinds.add("no value")
            return ["", "{}"][len(v["x"]) % 2], []
        if v["f"] == 7:  # braces that are part of the value
            a, b = self.word(), self.word()
            self.kinds.add("value with braces")
            i = len(v["x"]) % 2 + 2 * (v["x"][0]["k"] == "t")
            return ["{\\bf %s} %s", "{%s, x} %s", "{%s} {%s}", "%s {y=z, %s}"][i] % (a, b), self.w(a, ["bold"][i:]) + self.w(["", ", x ", "", "y=z, "][i] + b, [])
        s, c = self.inl(v["x"])
        if v["f"] in (4, 5, 6) or plain(s) or s.startswith("{"):
            self.kinds.add("protected value")
            return "{%s}" % s, c
        return s, c

    def code(self, d, can):
        """what the code of a key shows for a value"""
        k = d["kind"]
        if k == "text":
            return self.w(d["a"], []) + can + self.w(d["b"], [])
        if k == "twice":
            return self.w(d["a"], []) + can + self.w(d["b"], []) + can
        if k == "style":
            return style(can, [doc.STYLE[d["c"]]])
        if k == "group":
            return style(self.w(d["a"], []) + can, [doc.DECL[d["d"]]])
        if k == "none":
            return self.w(d["a"], [])
        if k == "foot":
            return [self.tok("footnote", [], content=self.w(d["a"], []) + can)]
        if k == "via":
            to = self.defs[d["fam"]].get(d["toname"])
            return self.code(to, can)
        if k == "switch":
            self.sw[d["name"]] = d["on"]
            return []
        self.vals[d["name"]] = can
        return []

    def run(self, fam, sets, top):
        """-> source of the key-value list, content it shows"""
        mine = [(k, d) for k, d in sorted(self.defs.get(fam, {}).items()) if top or d["kind"] not in ("def", "switch")]
        parts, can = [], []
        for s in sets:
            if s["i"] >= 12 or not mine:
                self.kinds.add("unknown key")
                a = ["nokey", "colorx", "col", "Color"][s["i"] % 4]
                parts.append([a, "%s=%s" % (a, self.word()), "%s={%s, color=%s}" % (a, self.word(), self.word())][s["i"] % 3])
                continue
            k, d = mine[s["i"] % len(mine)]
            if s["v"] is None and d["dflt"] is not None:
                self.kinds.add("default")
                parts.append(k)
                can += self.code(d, d["dflt"])
                continue
            if s["v"] and s["v"]["f"] == 8:
                # a value like the name of a key, or one that was used before
                src = ([k, mine[0][0]] + self.plain)[len(self.plain) * s["sp"] % 5 % (2 + len(self.plain))]
                c = self.w(src, [])
                self.kinds.add("value like a key")
            else:
                src, c = self.val(s["v"] or {"f": 9, "x": [{"k": "t"}]})
            if src.isalnum():
                self.plain.append(src)
            parts.append(k + ["=", " = ", "= ", " =\n    "][s["sp"]] + src)
            can += self.code(d, c)
            self.kinds.add("set")
            if d.get("again"):
                self.kinds.add("key defined again")
        return parts, can

    def keys(self, nd, top):
        fam = nd["fam"]
        how = nd["how"]
        old = self.in_opt
        self.in_opt = old or how == 2
        parts, can = self.run(fam, nd["x"], top)
        self.in_opt = old
        kv = [", ".join(parts), ",".join(parts), "\n  %s,\n" % ",\n  ".join(parts), ", ".join(parts) + ",", "%s ,, %s" % (parts[0], " , ".join(parts[1:]))][nd["lay"]]
        if how == 1 and nd["lay"] != 2:
            self.kinds.add("in a macro")
            return "\\setup%s{%s}" % (MACS[fam], kv), can
        if how == 2 and nd["lay"] != 2:
            self.kinds.add("in a macro")
            w = self.word()
            return "\\keybox%s[%s]{%s}" % (MACS[fam], kv, w), can + self.w(w, ["bold"])
        return "\\setkeys%s{%s}%s{%s}" % (["", " "][nd["sp"]], FAMS[fam], ["", " ", ""][nd["lay"] % 3], kv), can

    def i_keys(self, nd, styles):
        src, can = self.keys(nd, False)
        w = self.word()
        return src + " " + w, style(can, styles) + self.w(w, styles)

    def b_keys(self, nd):
        src, can = self.keys(nd, True)
        return src, can

    def b_show(self, nd):
        n = nd["i"]
        w = self.word()
        src, can = w, self.w(w, [])
        if n in self.vals:
            self.kinds.add("kept value")
            src += " \\show%s{}" % NAMES[n]
            can = can + self.vals[n]
        if n in self.sw:
            self.kinds.add("switch")
            a, b = self.word(), self.word()
            src += "\n\\if%s %s\\else %s\\fi" % (SW[n], a, b)
            can = can + self.w(a if self.sw[n] else b, [])
        return src, can

    def b_def(self, nd):
        fam, key = nd["fam"], KEYS[nd["key"]]
        d = {"kind": nd["kind"], "name": nd["key"], "dflt": None, "a": self.word(), "b": self.word(), "c": nd["c"], "d": nd["d"], "again": key in self.defs.get(fam, {})}
        dsrc = ""
        if nd["dflt"] is not None:
            old, self.in_opt = self.in_opt, True
            dsrc, d["dflt"] = self.inl(nd["dflt"])
            self.in_opt = old
            dsrc = "[%s]" % dsrc
        extra = ""
        if d["kind"] in ("via", "def", "switch") and any(x.get("toname") == key for x in self.defs.get(fam, {}).values()):
            d["kind"] = "text"
        if d["kind"] == "via":
            to = [(k, x) for k, x in sorted(self.defs.get(fam, {}).items()) if x["kind"] not in ("def", "via", "switch") and k != key]
            if not to:
                d["kind"] = "text"
            else:
                k, x = to[nd["to"] % len(to)]
                # the code of the other key is looked up when it runs
                d["toname"], d["fam"] = k, fam
        a, b, k = d["a"], d["b"], d["kind"]
        if k == "text":
            code = "%s #1 %s" % (a, b)
        elif k == "twice":
            code = "%s {#1} %s #1" % (a, b)
        elif k == "style":
            code = "\\%s{#1}" % d["c"]
        elif k == "group":
            code = "{\\%s %s #1}" % (d["d"], a)
        elif k == "none":
            code = a
        elif k == "foot":
            code = "\\footnote{%s #1}" % a
        elif k == "via":
            code = "\\setkeys{%s}{%s={#1}}" % (FAMS[fam], d["toname"])
        elif k == "switch":
            n = SW[nd["key"]]
            d["on"] = nd["to"] % 3 > 0
            code = ["\\%sfalse", "\\%strue", "\\global\\%strue"][nd["to"] % 3] % n
            if nd["key"] not in self.sw:
                extra = "\\newif\\if%s \\%sfalse\n" % (n, n)
                self.sw[nd["key"]] = False
        else:
            n = NAMES[nd["key"]]
            code = ["\\def\\opt@%s{#1}", "\\gdef\\opt@%s{#1}", "\\renewcommand{\\opt@%s}{#1}"][nd["to"] % 3] % n
            extra = "\\newcommand{\\opt@%s}{}\n\\def\\show%s{\\opt@%s}\n" % (n, n, n)
            if nd["key"] not in self.vals:
                self.vals[nd["key"]] = []
            else:
                extra = ""
        self.defs.setdefault(fam, {})[key] = d
        f = nd["f"]
        sp = ["", " ", "\n  ", "%\n  "][f]
        return "\\makeatletter\n%s\\define@key%s{%s}%s{%s}%s%s{%s}\n\\makeatother" % (extra, ["", " ", "", ""][f], FAMS[fam], sp, key, dsrc, sp, ["%s", " %s ", "%%\n  %s%%\n", "%s%%\n"][f] % code), []


def deep(s, i):
    d = 0
    for c in s[:i].replace("\\\\", "").replace("\\{", "").replace("\\}", ""):
        d += (c == "{") - (c == "}")
    return d > 0


def plain(s):
    """does the source need braces?"""
    return any(c in ",=" and not deep(s, i) for i, c in enumerate(s))


base = doc.s_inl(1, 1, 3, verb=False)
atom = mix(doc.s_text, doc.s_text, doc.s_math, doc.s_cite, doc.s_esc, doc.fd("sty", c=st.sampled_from(["textbf", "emph", "texttt"]), x=lst(doc.s_text, 1, 2)))
vnodes = lst(atom, 1, 2)
s_val = doc.fd("_", f=st.integers(0, 11), x=vnodes)
s_set = doc.fd("_", i=mix(st.integers(0, 11), st.integers(0, 11), st.integers(0, 15)), v=doc.opt(s_val), sp=st.integers(0, 3))
s_keys = doc.fd("keys", fam=mix(st.just(0), st.just(0), ix(FAMS)), x=lst(s_set, 1, 4), how=st.integers(0, 2), lay=st.integers(0, 4), sp=st.integers(0, 1))
s_def = doc.fd("def", fam=mix(st.just(0), st.just(0), ix(FAMS)), key=ix(KEYS), kind=mix(st.sampled_from(TEXT), st.sampled_from(TEXT), st.sampled_from(["def", "def", "switch"]), st.just("via")), dflt=doc.opt(vnodes),
               c=st.sampled_from(["textbf", "emph", "texttt"]), d=st.sampled_from(["bf", "itshape", "small"]), to=st.integers(0, 5), f=st.integers(0, 3))
s_show = doc.fd("show", i=ix(KEYS))
par = doc.fd("par", x=lst(mix(doc.s_inline(1), s_keys, s_keys, doc.fd("sty", c=st.sampled_from(["textbf", "emph", "textsc"]), x=lst(mix(doc.s_text, s_keys), 1, 2)),
                              doc.fd("fn", x=lst(mix(doc.s_text, s_keys), 1, 2))), 1, 3))
title = lst(mix(doc.s_text, s_keys), 1, 2)
ctx = mix(
    doc.fd("sec", l=st.integers(1, 2), star=st.booleans(), x=title, lab=st.integers(0, 2)),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", title=st.none(), x=lst(par, 1, 2)), 1, 3)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=doc.opt(title), lab=st.integers(0, 2), center=st.booleans(), capfirst=st.booleans(), x=lst(mix(doc.s_img, par), 1, 2)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof"]), title=st.none(), lab=st.booleans(), x=lst(par, 1, 2)),
    doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "myunknownenv"]), x=lst(par, 1, 2)),
    doc.fd("tab", rows=st.lists(st.lists(lst(mix(doc.s_text, s_keys), 1, 2), min_size=2, max_size=2), min_size=1, max_size=3)))
s_state = doc.fd("def", fam=st.just(0), key=st.integers(0, 2), kind=st.sampled_from(["def", "switch", "def", "switch", "text"]), dflt=doc.opt(vnodes),
                 c=st.just("textbf"), d=st.just("bf"), to=st.integers(0, 5), f=st.integers(0, 3))
s_kset = doc.fd("keys", fam=st.just(0), x=lst(s_set, 1, 3), how=st.integers(0, 2), lay=st.integers(0, 4), sp=st.integers(0, 1))
s_sshow = doc.fd("show", i=st.integers(0, 2))
state = mix(s_kset, s_kset, s_sshow, s_sshow, s_sshow, s_state, doc.fd("par", x=lst(doc.s_text, 1, 1)))
blk = mix(s_def, s_def, s_def, s_keys, s_keys, par, par, s_show, s_show, ctx)
PRELUDE = "".join("\\newcommand{\\setup%s}[1]{\\setkeys{%s}{#1}}\n\\newcommand{\\keybox%s}[2][]{\\setkeys{%s}{#1}\\textbf{#2}}\n" % (m, f, m, f) for f, m in zip(FAMS, MACS))


def run(c):
    em = Em()
    model(em, c["first"] + c["doc"], c["pre"], PRELUDE)
    return sorted(em.kinds - {"unknown key"})


PROPERTY = Property("C29", [
    Facet("keys", case(first=lst(s_def, 1, 3), doc=lst(blk, 2, 7), pre=pre), run, quick=1600, thorough=40000, shards=8,
          rule="documents that define keys of families, and set them in text, headings, items, cells, captions, notes and through macros, with values of all forms"),
    Facet("state", case(first=lst(s_state, 2, 4), doc=lst(state, 4, 12), pre=pre), run, quick=600, thorough=15000, shards=8,
          rule="histories of keys whose code defines macros and sets switches, and of uses of these"),
    big(case(first=lst(s_def, 1, 3), doc=lst(blk, 2, 5), pre=pre), run),
], "a case is non-trivial when a key that is defined is set",
    assumptions=["a key that is set with no value has a default; the code of a key is text with commands, a definition of a macro, or sets another key"])
