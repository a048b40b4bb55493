import canon
import copy
import re

from hypothesis import strategies as st
from mix import mix
import doc
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

CITES = ["cite", "citep", "citet", "citealt", "citealp", "citeauthor", "citeyear", "citeyearpar", "citenum", "citefullauthor", "Cite", "Citet", "Citep", "cite*", "citep*", "citet*", "citealt*", "citealp*", "citeauthor*"]
REFS = ["ref", "eqref", "autoref", "pageref", "ref*", "autoref*", "Autoref", "ref *", "pageref* "]
CREFS = ["cref", "Cref", "cref*"]
KEYS = ["%s", "smith:%s", "doe_%s", "x-%s+2", "DBLP:conf/nips/%s", "%s.2020", "O'Neil%s", "a%s@b", "2019%s", "中%s"]
LABS = ["fig:%s", "sec_%s", "a-%s", "%s.1", "Th %s", "eq:x_%s:y", "é%s"]
URLS = ["https://ex.org/%s", "http://ex.org/%s?a=b&c=d", "https://ex.org/~u/%s#s_1", "ftp://h/%s_x^y", "https://ex.org/%s%%20x%%2F", "mailto:%s@ex.org", "%s.html", "https://ex.org/(%s)[1]", "https://ex.org/%s{x}y", "doi:10.1/%s$x$", "https://ex.org/%s--b'c''", "a//%s,b;c:d=e+f!*"]
UESC = [("", ""), ("\\%20", "%20"), ("\\#s", "#s"), ("\\_x", "_x"), ("\\&b=1", "&b=1"), ("\\~{}", None)]
NOTES = ["see", "p.~3", "Theorem 2.1", "[1], x", "e.g.,", "pp. 1--4", "\\S 3", "$n=1$", "\\emph{cf.}", ""]
PATHS = ["img/%s.png", "%s", "a_b/%s-1.pdf", "../%s.eps", "./f %s.jpg", "%s.v2.pdf", "{%s.v2}.png", "figs/%s_final(1).png"]
IOPTS = ["", "[width=\\textwidth]", "[width=0.5\\linewidth,height=3cm]", "[page=7]", "[scale=.5, angle=90, page=12]", "[trim={0 1cm 0 0},clip]", "[trim=1 2 3 4, clip=true, width=.3\\columnwidth]", "[keepaspectratio]", "*[width=2in]", " *[width=2in]", "[page = 7]", "[width=3cm, page={12}]", "[page= 12 ,clip]", " [page=7] "]
POPTS = [("", None), ("[pages=-]", "-"), ("[pages={1,3-4}]", "1,3-4"), ("[pages=2-5,scale=.8]", "2-5"), ("[landscape]", None), ("[fitpaper, pages = {2, 5-7}]", "2, 5-7")]


PROT = tuple("\\%s" % n + b for n in "cite citep citet citealp citeauthor ref eqref pageref cref textbf textit emph texttt textsc underline footnote url href".split() for b in "{[")


class Em(doc.Emitter):
    n_c = 0

    def __init__(self):
        super().__init__()
        self.alias = {}

    def k(self, forms, i):
        self.nl += 1
        return forms[i % len(forms)] % ("k%d" % self.nl)

    def label(self, prefix="lb"):
        return self.k(LABS, self.nl)

    def note(self, i):
        """note of a citation -> source, canonical"""
        n = NOTES[i % len(NOTES)]
        w = self.word()
        if n == "":
            return "", None
        if n.startswith("$"):
            return w + " " + n, self.w(w, []) + [self.tok("equation", [], content="n=1")]
        if n.startswith("\\emph"):
            return n + " " + w, self.w("cf.", ["italic"]) + self.w(w, [])
        if n.startswith("\\S"):
            return n + " " + w, self.w("§3" + " " + w, [])
        if "[" in n:
            n = n.replace("[1]", "{[1]}") if i % 2 else n.replace("[1]", "{1}")
        return w + " " + n, self.w(w + " " + n.replace("{", "").replace("}", ""), [])

    def i_prot(self, nd, styles):
        """a protected command in a moving argument"""
        l, c = self.inline(nd["x"], styles)
        return ("\\protect" if l.startswith(PROT) else "") + l, c

    def i_ct(self, nd, styles):
        self.n_c += 1
        keys = [self.k(KEYS, i) for i in nd["keys"]]
        if len(keys) > 2 and nd["f"] % 2:
            keys[2] = keys[0]  # cited twice
        t = self.tok("citation", styles, content=keys)
        opt = ""
        notes = [self.note(i) for i in nd["o"]]
        if notes:
            opt = ["", " "][nd["f"] % 5 == 1].join("[%s]" % n[0] for n in notes)
            if nd["f"] % 5 == 1:
                opt = " " + opt + " "
            have = [n[1] for n in notes if n[1]]
            if have:
                t["title"] = have[0] + (self.w(",", []) + have[1] if len(have) > 1 else [])
        sep = [",", ", ", " , ", ",\n", ",%\n  "][nd["f"] % 5]
        body = sep.join(keys)
        if nd["f"] == 6:
            body = " " + body + " "
        return "\\%s%s{%s}" % (nd["c"], opt, body), [t]

    def i_rf(self, nd, styles):
        self.n_c += 1
        l = self.label()
        return "\\%s%s{%s}" % (nd["c"], ["", "", " "][nd["f"] % 3], l), [self.tok("ref", styles, content=[l])]

    def i_crf(self, nd, styles):
        self.n_c += 1
        ls = [self.label() for _ in range(nd["n"])]
        if nd.get("rep"):  # a label named twice
            ls.append(ls[0])
        return "\\%s{%s}" % (nd["c"], [",", ", "][nd["f"] % 2].join(ls)), [self.tok("ref", styles, content=ls)]

    def i_hr(self, nd, styles):
        self.n_c += 1
        l = self.label()
        x, c = self.inl(nd["x"])
        return "\\hyperref%s[%s]{%s}" % (["", " "][nd["f"] % 2], l, x), [self.tok("ref", styles, content=[l], title=c)]

    def url(self, nd):
        u = self.k(URLS, nd["u"])
        a, b = UESC[nd["e"]]
        if b is None:
            a = b = ""
        return u + a, u + b

    def i_u(self, nd, styles):
        self.n_c += 1
        s, u = self.url(nd)
        return "\\%s{%s}" % (["url", "url", "path", "url "][nd["f"] % 4], s), [self.tok("url", styles, content=u)]

    def b_defal(self, nd):
        """another name for what is cited"""
        key = "al%d" % nd["i"]
        x, c = self.inl(nd["x"])
        self.alias[key] = c
        sp = ["", " "][nd["s"]]
        return "\\defcitealias%s{%s}%s{%s}" % (sp, key, sp, x), []

    def i_al(self, nd, styles):
        self.n_c += 1
        keys = ["al%d" % i for i in nd["i"]]
        return "\\cite%salias{%s}" % ("pt"[nd["c"]], ", ".join(keys)), [
            self.tok("citation", styles, content=[k], title=list(self.alias[k]) if k in self.alias else None) for k in keys]

    def i_doi(self, nd, styles):
        self.n_c += 1
        u = "10.1000/%s" % self.k(["%s", "%s_x", "(%s)12:3-4", "%s.1;2"], nd["u"])
        return "\\doi{%s}" % u, [self.tok("url", styles, content="https://doi.org/" + u)]

    def i_hf(self, nd, styles):
        self.n_c += 1
        s, u = self.url(nd)
        x, c = self.inl(nd["x"])
        return "\\href%s{%s}%s{%s}" % (["", "[pdfnewwindow=true]"][nd["f"] == 3], s, ["", " "][nd["f"] == 2], x), [self.tok("url", styles, content=u, title=c)]

    def i_fnb(self, nd, styles):
        self.n_c += 1
        x, c = self.blks(nd["x"])
        return "\\footnote%s{%s}" % (["", "[3]", " [3]", " "][nd["f"] % 4], x), [self.tok("footnote", styles, content=c)]

    def i_fnm(self, nd, styles):
        self.n_c += 1
        if nd["f"] == 0:
            w = self.word()
            return "\\footnotemark%s[%d] %s" % (["", " "][nd["n"] % 2], nd["n"], w), [self.tok("footnote", styles, content=self.w(str(nd["n"]), []))] + self.w(w, styles)
        if nd["f"] == 1:
            w = self.word()
            return "\\footnotemark{} " + w, [self.tok("footnote", styles, content=self.w("*", []))] + self.w(w, styles)
        x, c = self.inl(nd["x"])
        return "\\footnotetext%s{%s}" % (["", ["[%d]", " [%d]", "[%d] "][nd["n"] % 3] % nd["n"]][nd["f"] - 2], x), [self.tok("footnote", styles, content=c)]

    def i_ig(self, nd, styles):
        self.n_c += 1
        if nd["pdf"]:
            p = self.k(PATHS[:5], nd["p"])
            o, pages = POPTS[nd["o"] % len(POPTS)]
            return "\\includepdf%s{%s}" % (o, p), [self.tok("includepdf", styles, content=p, pages=pages)]
        p = self.k(PATHS, nd["p"])
        o = IOPTS[nd["o"]]
        page = 7 if "7" in o else 12 if "12" in o else None
        return "\\includegraphics%s{%s}" % (o, p), [self.tok("includegraphics", styles, content=p.replace("{", "").replace("}", ""), page=page)]

    def b_ig(self, nd):
        return self.i_ig(nd, [])


def inline(d):
    sub = st.deferred(lambda: lst(mix(doc.s_text, doc.s_text, doc.s_math, doc.s_esc, inline(d - 1) if d else doc.s_text), 1, 3))
    link = st.deferred(lambda: lst(mix(doc.s_text, doc.s_math, doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=lst(doc.s_text, 1, 1)), doc.s_esc), 1, 3))
    i = st.integers
    lv = [doc.s_text, doc.s_text,
          doc.fd("ct", c=st.sampled_from(CITES), keys=lst(ix(KEYS), 1, 3), o=st.lists(i(0, 40), max_size=2), f=i(0, 6)),
          doc.fd("ct", c=st.sampled_from(CITES), keys=lst(ix(KEYS), 1, 3), o=st.lists(i(0, 40), max_size=2), f=i(0, 6)),
          doc.fd("rf", c=st.sampled_from(REFS), f=i(0, 2)), doc.fd("crf", c=st.sampled_from(CREFS), n=i(1, 3), f=i(0, 1), rep=st.sampled_from([0, 0, 0, 1])),
          doc.fd("hr", x=link, f=i(0, 1)), doc.fd("u", u=ix(URLS), e=ix(UESC), f=i(0, 3)), doc.fd("doi", u=i(0, 3)), doc.fd("hf", u=ix(URLS), e=ix(UESC), f=i(0, 3), x=link),
          doc.fd("al", i=lst(i(0, 2), 1, 2), c=i(0, 1)),
          doc.fd("fnm", f=i(0, 3), n=i(1, 20), x=link), doc.fd("ig", pdf=st.sampled_from([False, False, True]), p=ix(PATHS), o=ix(IOPTS))]
    if d:
        lv += [doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=sub), doc.fd("decl", c=st.sampled_from(doc.DECL_NAMES), x=sub), doc.fd("grp", x=sub),
               doc.fd("fnb", f=i(0, 3), x=st.deferred(lambda: lst(mix(doc.fd("par", x=sub), doc.fd("par", x=sub), doc.s_eq, doc.s_list(1)), 1, 2)))]
    return mix(*lv)


short = mix(doc.s_text, inline(0), doc.fd("prot", x=mix(inline(0), doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=lst(inline(0), 1, 2)))), doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=lst(inline(0), 1, 2)), doc.fd("fn", x=lst(inline(0), 1, 2)))
par = doc.fd("par", x=lst(inline(2), 1, 4))
ctx = mix(
    doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=lst(short, 1, 2), lab=st.just(0)),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", title=st.none(), x=lst(par, 1, 2)), 1, 3)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof", "remark"]), title=st.none(), lab=st.just(False), x=lst(par, 1, 1).map(lambda x: [{"k": "par", "x": [{"k": "t"}] + x[0]["x"]}])),
    doc.fd("float", e=st.sampled_from(["figure", "table", "wrapfigure"]), cap=lst(short, 1, 3), lab=st.just(0), x=lst(mix(doc.fd("ig", pdf=st.just(False), p=ix(PATHS), o=ix(IOPTS)), par), 1, 2)),
    doc.s_tab(cell=lst(short, 0, 2)),
    doc.fd("env", e=st.sampled_from(["quote", "center", "abstract", "myunknownenv"]), x=lst(par, 1, 2)))
blk = mix(par, par, ctx)
defal = doc.fd("defal", i=st.integers(0, 2), s=st.integers(0, 1), x=lst(mix(doc.s_text, doc.s_text, doc.s_math, doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=lst(doc.s_text, 1, 1))), 1, 2))


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    if em.n_c > 1:
        return sorted(em.seen & {"ct", "rf", "crf", "hr", "u", "doi", "hf", "fnb", "fnm", "ig", "al"})


# ------------------------------------------------------------------ labels
class Lab(doc.Emitter):
    """labels at every place of a construct; `cur` is the construct a label belongs to"""
    cur = None
    nlab = 0

    def lb(self):
        l = self.label("l")
        while l in self.cur.get("labels", []):  # not twice in one construct
            l = self.label("l")
        self.nlab += 1
        self.cur.setdefault("labels", []).append(l)
        return "\\label{%s}" % l

    def i_lab(self, nd, styles):
        w = self.word()
        if self.cur is None:
            return w, self.w(w, styles)
        return "%s %s" % (w, self.lb()), self.w(w, styles)

    def inside(self, t, f):
        old, self.cur = self.cur, t
        r = f()
        self.cur = old
        return r

    def i_fn(self, nd, styles):
        t = self.tok("footnote", styles)
        x, t["content"] = self.inside(t, lambda: self.inl(nd["x"]))
        return "\\footnote{%s}" % x, [t]

    def b_sec(self, nd):
        t = {"type": "section", "level": nd["l"], "content": [], "_num": not nd["star"]}
        self.cur = t
        x, t["title"] = self.inl(nd["x"])
        after = "".join(nd_sep + self.lb() for nd_sep in [" ", "\n", ""][:nd["lab"]])
        return "\\%ssection%s{%s}%s" % ("sub" * (nd["l"] - 1), "*" if nd["star"] else "", x, after), [t]

    def b_parag(self, nd):
        t = {"type": "paragraph", "level": nd["l"], "content": []}
        self.cur = t
        x, t["title"] = self.inl(nd["x"])
        return "\\%sparagraph{%s}%s" % ("sub" * (nd["l"] - 1), x, self.lb() if nd["lab"] else ""), [t]

    def b_thm(self, nd):
        t = {"type": "math_env", "name": nd["e"]}
        if nd["e"] in doc.THEOREMS:
            t["_num"] = True

        def f():
            opt = ""
            if nd["title"]:
                opt = "[%s]" % (w := self.word())
                t["title"] = self.w(w, [])
            lab = "".join(self.lb() for _ in range(nd["lab"]))
            l, t["content"] = self.blks(nd["x"])
            if not opt and not lab and l.startswith("["):
                l = "{}" + l
            return "\\begin{%s}%s%s\n%s%s\n\\end{%s}" % (nd["e"], opt, lab, l, " " + self.lb() if nd["end"] else "", nd["e"])
        return self.inside(t, f), [t]

    def b_q(self, nd):
        e = nd["e"]
        t = {"type": "quote"} if e == "quote" else {"type": "environment", "name": e}

        def f():
            lab = self.lb() if nd["lab"] else ""
            l, t["content"] = self.blks(nd["x"])
            return "\\begin{%s}%s\n%s%s\n\\end{%s}" % (e, lab, l, " " + self.lb() if nd["end"] else "", e)
        return self.inside(t, f), [t]

    def b_fl(self, nd):
        e = nd["e"]
        t = {"type": {"wrapfigure": "figure", "algorithm": "algorithm"}.get(e, e), "content": []}
        if e == "algorithm":
            t["name"] = e
        if e != "subfigure":
            t["_num"] = True

        def f():
            out = []
            for p in nd["x"]:
                if p["k"] == "cap":
                    ct = {"type": "caption"}
                    self.cur = ct
                    x, ct["content"] = self.inl(p["x"])
                    t["content"].append(ct)
                    out.append("\\caption{%s}%s" % (x, "".join(s + self.lb() for s in [" ", "\n"][:p["lab"]])))
                elif p["k"] == "lb":
                    out.append(self.lb())
                else:
                    l, c = self.block(p)
                    t["content"] += c
                    out.append(l)
            return "\n".join(out)
        arg = {"wrapfigure": "{r}{3cm}", "subfigure": "{.4\\textwidth}"}.get(e, "[h]")
        return "\\begin{%s}%s\n%s\n\\end{%s}" % (e, arg, self.inside(t, f), e), [t]

    def b_ls(self, nd):
        out, can = [], []
        for it in nd["items"]:
            t = {"type": "item"}

            def f():
                lab = " " + self.lb() if it["lab"] else ""
                l, t["content"] = self.blks(it["x"])
                return "\\item%s %s%s" % (lab, l, " " + self.lb() if it["end"] else "")
            out.append(self.inside(t, f))
            can.append(t)
        return "\\begin{itemize}\n%s\n\\end{itemize}" % "\n".join(out), [{"type": "list", "name": "itemize", "content": can}]


    def b_tabl(self, nd):
        """labels in cells belong to what the table is in, or to the table"""
        t = {"type": "tabular"}
        own = self.cur is None

        def f():
            out, t["content"] = [], []
            for r in nd["rows"]:
                ls, cs = [], []
                for c in r:
                    x, w = self.inl(c["x"], ["bold"] if c["w"] == 1 else [])
                    ls.append(["%s", "\\textbf{%s}", "{%s}", "\\makecell{%s}", "$x$ %s"][c["w"]] % x)
                    cs.append([{"type": "equation", "content": "x"}] * (c["w"] == 4) + w)
                out.append(" & ".join(ls))
                t["content"].append(cs)
            return " \\\\\n".join(out)
        x = self.inside(t, f) if own else f()
        return "\\begin{tabular}{ccc}\n%s\n\\end{tabular}" % x, [t]


ltext = mix(doc.s_text, doc.s_text, doc.fd("lab"), doc.fd("fn", x=lst(mix(doc.s_text, doc.fd("lab")), 1, 2)), doc.s_math)
lpar = doc.fd("par", x=lst(ltext, 1, 4))
cap = doc.fd("cap", x=lst(mix(doc.s_text, doc.fd("lab")), 1, 2), lab=st.integers(0, 2))


tabl = doc.fd("tabl", rows=lst(lst(case(w=st.integers(0, 4), x=lst(ltext, 1, 2)), 1, 3), 1, 2))


def lblock(d):
    base = mix(lpar, lpar, doc.s_eq, doc.s_img, tabl)
    if d == 0:
        return base
    sub = st.deferred(lambda: lst(lblock(d - 1), 1, 3))
    part = mix(doc.s_img, cap, doc.fd("lb"), doc.s_tab(), *([st.deferred(lambda: fl(d - 1, ["subfigure"]))] if d > 0 else []))
    return mix(base, base,
                     doc.fd("thm", e=st.sampled_from(["theorem", "lemma", "proof", "definition"]), title=st.booleans(), lab=st.integers(0, 2), end=st.booleans(), x=sub),
                     doc.fd("q", e=st.sampled_from(["quote", "myunknownenv"]), lab=st.booleans(), end=st.booleans(), x=sub),
                     doc.fd("ls", items=lst(doc.fd("_", lab=st.booleans(), end=st.booleans(), x=sub), 1, 3)),
                     fl(d, ["figure", "table", "wrapfigure", "algorithm"]), fl(d, ["figure", "table"]))


def fl(d, envs):
    part = mix(doc.s_img, cap, doc.fd("lb"), doc.s_tab(), *([st.deferred(lambda: fl(d - 1, ["subfigure"]))] if d > 0 else []))
    return doc.fd("fl", e=st.sampled_from(envs), x=lst(part, 1, 4))


lsec = doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=lst(mix(doc.s_text, doc.fd("lab")), 1, 2), lab=st.integers(0, 3))
lparag = doc.fd("parag", l=st.integers(1, 2), x=lst(doc.s_text, 1, 1), lab=st.booleans())


def in_order(v):
    if isinstance(v, dict):
        if v.get("labels"):
            v["labels"] = sorted(v["labels"])
        v = list(v.values())
    if isinstance(v, list):
        for x in v:
            in_order(x)


def run_labels(c):
    em = Lab()
    l, flat = em.blks(c["doc"])
    got, want = canon.canon(canon.process(l, c["pre"])), doc.assemble(flat)
    if "tabl" in em.seen:  # in no particular order: cells are read more than once
        in_order(got)
        in_order(want)
    canon.require_canon(got, want, l)
    if em.nlab > 1:
        return sorted(em.seen & {"tabl", "sec", "parag", "thm", "q", "fl", "ls", "fn", "lab", "eq"})


KEYARG = re.compile(r"(?<!\\)(\\(?:cite(?![a-z]*alias)[a-zA-Z]*|label|ref|eqref|cref|Cref|autoref|pageref|includegraphics)\*?\s*(?:\[[^\[\]]*\]\s*)*\{)([^{}]*)(?=\})")


def run_keys(c):
    """keys and file names that macros write"""
    em = (Em, Lab)[c["lab"]]()
    l, flat = em.blks(c["docl"] if c["lab"] else c["doc"])
    pre, n = {}, [0]

    verb = [x.span() for x in re.finditer(r"\\begin\{(verbatim|lstlisting)\}.*?\\end\{\1\}", l, re.S)]

    def arg(m):
        ks = m.group(2).split(",")
        if any(a < m.start() < b for a, b in verb):
            return m.group(0)
        if len(m.group(2)) % 4 == c["every"]:
            return m.group(0)
        if len(ks) > 1 and c["every"] == len(ks) % 2:
            n[0] += 1
            pre["kset" + doc._letters(n[0])] = m.group(2)
            return m.group(1) + "\\kset" + doc._letters(n[0])
        r = []
        for k in ks:
            w = [x for x in re.finditer(r"[A-Za-z]+(?![A-Za-z@ *])", k) if k[:x.start()][-1:] != "\\"]
            if w:
                x = w[len(k) % len(w)]
                n[0] += 1
                pre["km" + x.group(0)] = x.group(0)
                k = k[:x.start()] + "\\km" + k[x.start():]
            r.append(k)
        r = ",".join(r)
        return m.group(1) + (" %s " % r if len(r) % 5 == 1 and "graphics" not in m.group(1) else r)

    src = KEYARG.sub(arg, l)
    if len(pre) > 20:
        return
    src = "".join("\\newcommand{\\%s}{%s}\n" % x for x in pre.items()) + src
    got, want = canon.canon(canon.process(src, c["pre"])), doc.assemble(flat)
    if "tabl" in em.seen:
        in_order(got)
        in_order(want)
    canon.require_canon(got, want, src)
    if n[0] > 1:
        return ["labels" if c["lab"] else "keys"] + ["set"] * ("kset" in src)


PROPERTY = Property("C11", [
    Facet("kept", case(doc=lst(mix(blk, blk, blk, defal), 1, 5), pre=pre), run, quick=4000, thorough=80000, shards=8,
          rule="citations, references, links, footnotes and graphics with generated keys, notes, targets, texts and options in all contexts"),
    Facet("labels", case(doc=lst(mix(lblock(2), lblock(2), lsec, lparag), 1, 5), pre=pre), run_labels, quick=4000, thorough=80000, shards=8,
          rule="labels at every place in and around headings, captions, floats, theorems, items, quotes, footnotes and equations"),
    Facet("keymacros", case(lab=st.integers(0, 1), doc=lst(mix(blk, blk, blk), 1, 4), docl=lst(mix(lblock(2), lblock(2), lsec, lparag), 1, 4), every=st.integers(0, 3), pre=pre),
          run_keys, quick=1600, thorough=30000, shards=8, rule="keys, labels and file names written by macros, in part or as a list"),
    big(case(doc=lst(mix(blk, blk, defal), 1, 3), pre=pre), run),
    big(case(doc=lst(mix(lblock(2), lblock(2), lsec, lparag), 1, 4), pre=pre), run_labels, name="biglabels"),
], "a case is non-trivial when it holds two such commands, or two labels",
    assumptions=["a label in text before the first heading belongs to no construct and is not generated"])
