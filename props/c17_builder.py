"""C17: building is pure, keeps everything, and its JSON follows the published token types.

trees: token trees over all published types, as the parser makes them, against a model of
       the output (nesting, numbering, depth) and the checks below;
docs:  tokens of model documents, and of documents damaged at random places.
Checks on every case: the input is unchanged, building again (same and fresh builder) is equal,
every text/word of the input is in the output, no two neighbouring texts share their styles,
every token has exactly the published fields of its type with values of their kind, and the
JSON is what an own walk over the in-memory tokens gives (and survives JSON text).
"""
import copy
import json

import canon
import doc
from hypothesis import strategies as st
from mix import mix
from gen import case, ix, lst, pre
from grow import big
from pbt import Facet, Property, require, require_eq, sut

# ------------------------------------------------------------------ published types
S, I, B = "str", "int", "bool"
TOK = "tokens"            # list of tokens
TS = "str|tokens"
BASE = {"type": S, "styles": "strs?", "labels": "strs?"}
TYPES = {
    "document": {"content": TS}, "title": {"content": TOK}, "abstract": {"content": TS}, "quote": {"content": TS}, "group": {"content": TOK}, "appendix": {"content": TOK},
    "section": {"content": TOK, "title": TOK, "level": I, "numbering": "str?"}, "paragraph": {"content": TOK, "title": TOK, "level": I, "numbering": "str?"},
    "text": {"content": S}, "command": {"command": S, "content": "str?"}, "environment": {"name": "str?", "content": TS, "title": "tokens?"},
    "math_env": {"name": S, "content": TOK, "numbering": "str?", "title": "tokens?", "proof": "token?"},
    "figure": {"content": TS, "numbering": "str?"}, "table": {"content": TS, "numbering": "str?"}, "subfigure": {"content": TS}, "caption": {"content": TOK, "title": "str?"},
    "includegraphics": {"content": S, "page": "int?"}, "includepdf": {"content": S, "pages": "str?"}, "diagram": {"content": S, "name": S},
    "list": {"content": TOK, "name": "str?", "depth": I}, "item": {"content": TS, "title": "tokens?"},
    "equation": {"content": S, "align": "bool?", "display": "display?", "numbering": "str?", "placeholders": "map?"},
    "code": {"content": S, "title": "str?", "display": "str?"}, "algorithm": {"content": TS, "name": "str?", "numbering": "str?"}, "algorithmic": {"content": S},
    "citation": {"content": "strs", "title": "tokens?"}, "ref": {"content": "strs", "title": "tokens?"}, "url": {"content": S, "title": "str|tokens?"}, "footnote": {"content": TOK},
    "bibliography": {"content": "bibitems"}, "bibitem": {"content": TS, "format": S, "cite_key": S, "label": "str?", "fields": "strmap?"},
    "author": {"content": "tokenlists"}, "email": {"content": TS}, "affiliation": {"content": TS}, "address": {"content": TS}, "keywords": {"content": TS}, "tabular": {"content": "rows"},
}


def bad(what, v):
    require(False, "JSON does not follow the published token types: " + what, json.dumps(v, ensure_ascii=False)[:400])


def tokens(v):
    require(isinstance(v, list), "JSON does not follow the published token types: a list of tokens is needed", json.dumps(v)[:300])
    for t in v:
        token(t)


def kind(k, v, where):
    if k == S:
        ok = type(v) is str
    elif k == I:
        ok = type(v) is int
    elif k == B:
        ok = type(v) is bool
    elif k == "strs":
        ok = type(v) is list and all(type(x) is str for x in v)
    elif k == TOK:
        return tokens(v)
    elif k == TS:
        return None if type(v) is str else tokens(v)
    elif k == "token":
        return token(v)
    elif k == "display":
        ok = v in ("inline", "block")
    elif k == "map":
        ok = type(v) is dict
        for x in v.values() if ok else ():
            tokens(x)
    elif k == "strmap":
        ok = type(v) is dict and all(type(x) is str for x in v.values())
    elif k == "bibitems":
        tokens(v)
        ok = all(t["type"] == "bibitem" for t in v)
    elif k == "tokenlists":
        ok = type(v) is list
        for x in v if ok else ():
            tokens(x)
    elif k == "rows":
        ok = type(v) is list and all(type(r) is list for r in v)
        for r in v if ok else ():
            for c in r:
                cell(c)
    else:
        raise AssertionError(k)
    if not ok:
        bad("%s is not of kind %s" % (where, k), v)


def cell(c):
    if c is None or type(c) is str:
        return
    if type(c) is list:
        return tokens(c)
    if type(c) is dict and "type" not in c:
        if set(c) != {"content", "rowspan", "colspan"} or type(c["rowspan"]) is not int or type(c["colspan"]) is not int:
            bad("table cell", c)
        if not (c["content"] is None or type(c["content"]) is str):
            if type(c["content"]) is not list:
                bad("content of a table cell", c)
            tokens(c["content"])
        return
    token(c)


def token(t):
    if type(t) is not dict or type(t.get("type")) is not str:
        bad("not a token", t)
    spec = TYPES.get(t["type"])
    if spec is None:
        bad("no published type", t)
    spec = {**BASE, **spec}
    for f, v in t.items():
        if f not in spec:
            bad("field %r of %s is not published" % (f, t["type"]), t)
        kind(spec[f].rstrip("?"), v, "%s.%s" % (t["type"], f))
    for f, k in spec.items():
        if f not in t and not k.endswith("?"):
            bad("%s lacks %s" % (t["type"], f), t)


# ------------------------------------------------------------------ the checks on one build
def plain(v):
    """own serialisation of the in-memory tokens"""
    if hasattr(type(v), "model_fields"):
        d = {k: plain(getattr(v, k)) for k in type(v).model_fields}
        if "type" in d:
            d = {k: x for k, x in d.items() if x is not None}
        return d
    if hasattr(v, "value") and type(v).__module__.startswith("latex2json"):
        return v.value
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def texts(v, out):
    """every string a reader sees, in no particular order"""
    if isinstance(v, str):
        out += canon.words(v)
    elif isinstance(v, list):
        for x in v:
            texts(x, out)
    elif isinstance(v, dict) and v.get("type") != "label":  # a label with nothing to belong to
        for k in ("content", "title", "fields", "placeholders", "labels", "command", "cite_key", "page", "pages", "proof", "label"):
            if k in v and v[k] is not None:
                if k in ("fields", "placeholders"):
                    for a, b in v[k].items():
                        texts(a, out)
                        texts(b, out)
                else:
                    texts(v[k], out) if not isinstance(v[k], int) else out.append(str(v[k]))
    return out


def rows_apart(v):
    """cells of a row stay apart: only look inside of cells"""
    if isinstance(v, dict):
        if v.get("type") == "tabular":
            for r in v["content"]:
                for c in r:
                    rows_apart(c)
            return
        for x in v.values():
            rows_apart(x)
    elif isinstance(v, list):
        for a, b in zip(v, v[1:]):
            if isinstance(a, dict) and isinstance(b, dict) and a.get("type") == b.get("type") == "text" and a.get("styles") == b.get("styles"):
                require(False, "two neighbouring texts of equal style are not joined", a, b)
        for x in v:
            rows_apart(x)


def same(a, b):
    """equal up to the empty fields (tables keep theirs)"""
    return strip(a) == strip(b)


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if x is not None or "type" not in v}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def check(toks, color_map=None):
    """toks: what the parser returned"""
    from latex2json import TexReader, TokenBuilder
    from latex2json.tex_reader import ProcessingResult
    before = copy.deepcopy(toks)
    b = TokenBuilder()
    mem = sut("build", b.build, toks)
    require(toks == before, "building changed its input", before, toks)

    def dump(m):
        return sut("model_dump", lambda: [t.model_dump(mode="json", exclude_none=True) for t in m])
    require(all(not isinstance(t, str) for t in mem), "the output holds bare strings")
    own = plain(mem)
    got = dump(mem)
    require_eq(dump(mem), got, "dumping again gives another result")
    require(same(plain(mem), own), "dumping changed the tokens")
    again = dump(sut("build", b.build, toks))
    require(again == got, "building again gives another result", got, again)
    fresh = dump(sut("build", TokenBuilder().build, copy.deepcopy(toks)))
    require(fresh == got, "a fresh builder gives another result", got, fresh)
    for t in got:
        token(t)
    require(same(got, own), "the JSON is not the same as the tokens", own, got)
    reader = TexReader()
    js = sut("to_json", reader.to_json, ProcessingResult(tokens=mem, color_map=color_map or {}))
    require(isinstance(js, str), "to_json gave no text")
    back = json.loads(js)
    require_eq(sorted(back), ["color_map", "tokens"], "keys of the JSON")
    require(back["tokens"] == got, "to_json differs from the tokens", got, back["tokens"])
    require(sorted(texts(got, [])) == sorted(texts(before, [])), "texts are lost or added by building", sorted(texts(before, [])), sorted(texts(got, [])))
    rows_apart(got)
    return got


# ------------------------------------------------------------------ token trees
class Tree:
    """JSON description -> (raw tokens, expected canonical output); words from a counter"""

    def __init__(self):
        self.n = 0
        self.em = doc.Emitter()

    def w(self):
        return self.em.word()

    def text(self, i):
        a = self.w()
        return [a, a + " ", " " + a, a + ".", "(" + a, "\n" + a, a + " é " + self.w(), a + "\n\n" + self.w(), "'" + a, a + ")", ", " + a][i % 11]

    def styles(self, nd):
        return [["bold"], ["italic"], ["bold", "italic"], ["color=red"]][nd["s"] - 1] if nd.get("s") else None

    def many(self, nds, styles=()):
        raw, want = [], []
        for nd in nds:
            r, w = getattr(self, "t_" + nd["k"])(nd, list(styles))
            raw.append(r)
            want += w
        return raw, want

    def base(self, nd, ty, styles, **kw):
        r = {"type": ty, **kw}
        s = self.styles(nd)
        if s:
            r["styles"] = s
        if nd.get("l"):
            r["labels"] = ["%s_%d" % (self.w(), i) for i in range(nd["l"])]
        d = {"type": ty}
        if styles or s:
            d["styles"] = doc.dedupe(list(styles) + (s or []))
        if nd.get("l"):
            d["labels"] = list(r["labels"])
        return r, d

    def t_t(self, nd, styles):
        s = self.text(nd["i"])
        r, d = self.base({"s": nd["s"]}, "text", styles)
        r["content"] = s
        return r, [["w", x, d.get("styles", [])] for x in canon.words(s)]

    def t_grp(self, nd, styles):
        r, d = self.base({"s": nd["s"]}, "group", styles)
        r["content"], want = self.many(nd["x"], d.get("styles", []))
        return r, want

    def t_leaf(self, nd, styles):
        ty, f = LEAVES[nd["i"] % len(LEAVES)]
        r, d = self.base(nd, ty, styles)
        for k, v in f.items():
            v = v(self) if callable(v) else v
            r[k] = v
            d[k] = v
        if r.get("numbered"):
            del d["numbered"]
            d["_num"] = True
        d.setdefault("content", None)
        if ty == "equation":
            d["content"] = canon.ws(d["content"])
            if d.get("display") == "inline":
                del d["display"]
        if nd["y"] and ty in ("citation", "ref", "url"):
            r["title"], d["title"] = self.many(nd["y"])
        if nd["y"] and ty == "equation":
            r["placeholders"], d["placeholders"] = {}, {}
            for i in (1, 2)[:nd["l"] + 1]:
                r["placeholders"]["___P_%d___" % i], d["placeholders"]["___P_%d___" % i] = self.many(nd["y"])
        return r, [d]

    def t_cont(self, nd, styles):
        ty, f = CONT[nd["i"] % len(CONT)]
        r, d = self.base(nd, ty, styles)
        for k, v in f.items():
            r[k] = v
            if k == "numbered":
                d["_num"] = v
            else:
                d[k] = v
        if nd["y"] and ty in ("math_env", "item"):
            r["title"], d["title"] = self.many(nd["y"])
        r["content"], d["content"] = self.many(nd["x"])
        return r, [d]

    def t_list(self, nd, styles):
        r, d = self.base(nd, "list", styles)
        r["name"] = d["name"] = "enumerate"
        if nd.get("d"):
            r["depth"] = 1
        r["content"], d["content"] = [], []
        for it in nd["items"]:
            a, b = self.base({}, "item", ())
            a["content"], b["content"] = self.many(it)
            r["content"].append(a)
            d["content"].append(b)
        return r, [d]

    def t_tab(self, nd, styles):
        r, d = self.base(nd, "tabular", styles)
        r["content"], d["content"] = [], []
        for row in nd["rows"]:
            rr, dd = [], []
            for c in row:
                if c["k"] == "none":
                    a, b = None, []
                elif c["k"] == "str":
                    a = self.text(c["i"])
                    b = canon.canon(a)
                elif c["k"] == "cell":
                    a, b = self.many(c["x"])
                else:
                    x, y = self.many(c["x"])
                    if c["i"] == 0:
                        x, y = None, []
                    elif c["i"] == 1:
                        x = self.text(3)
                        y = canon.canon(x)
                    a = {"content": x, "rowspan": c["r"], "colspan": c["c"]}
                    b = {"rowspan": c["r"], "colspan": c["c"], "content": y}
                rr.append(a)
                dd.append(b)
            r["content"].append(rr)
            d["content"].append(dd)
        d["content"] = canon.trim_rows(d["content"])
        return r, [d]

    def t_auth(self, nd, styles):
        r, d = self.base(nd, "author", styles)
        r["content"], d["content"] = [], []
        for a in nd["items"]:
            x, y = self.many(a)
            r["content"].append(x)
            d["content"].append(y)
        return r, [d]

    def t_bib(self, nd, styles):
        r, d = self.base({}, "bibliography", ())
        r["content"], d["content"] = [], []
        for it in nd["items"]:
            a = {"type": "bibitem", "format": ["bibitem", "bibtex"][it["i"] % 2], "cite_key": self.w()}
            b = dict(a)
            if it["i"] % 3 == 1:
                a["label"] = b["label"] = self.w()
            if it["i"] % 3 == 2:
                a["fields"] = {"title": self.w(), "year": "2001"}
                b["fields"] = dict(a["fields"])
            if it["i"] % 4 == 3:
                a["content"] = self.text(it["i"])
                b["content"] = canon.canon(a["content"])
            else:
                a["content"], b["content"] = self.many(it["x"])
            r["content"].append(a)
            d["content"].append(b)
        return r, [d]

    def t_sec(self, nd, styles):
        title, want = self.many(nd["y"])
        r = {"type": "section", "title": title, "level": nd["v"], "numbered": nd["n"]}
        d = {"type": "section", "level": nd["v"], "title": want, "content": [], "_num": nd["n"]}
        if nd["l"]:
            r["labels"] = d["labels"] = [self.w()]
        return r, [d]

    def t_para(self, nd, styles):
        title, want = self.many(nd["y"])
        return {"type": "paragraph", "title": title, "level": nd["v"], "numbered": False}, [{"type": "paragraph", "level": nd["v"], "title": want, "content": []}]

    def t_app(self, nd, styles):
        return {"type": "appendix"}, [{"type": "appendix", "content": []}]

    def t_document(self, nd, styles):
        r, d = self.base({}, "document", ())
        r["content"], d["content"] = self.many(nd["x"])
        return r, [d]


def W(t):
    return t.w()


def Wn(t):
    return "%s \\%s{%s}" % (t.w(), t.w(), t.w())


LEAVES = [("citation", {"content": lambda t: [t.w(), t.w()]}), ("ref", {"content": lambda t: [t.w()]}), ("url", {"content": lambda t: "http://x.org/%s?a=%s" % (t.w(), t.w())}),
          ("equation", {"content": Wn, "display": "inline"}), ("equation", {"content": Wn, "display": "block", "numbered": True}), ("equation", {"content": Wn, "display": "block", "align": True}), ("equation", {"content": Wn, "display": "block", "align": True, "numbered": True}),
          ("code", {"content": Wn}), ("code", {"content": W, "title": W}), ("code", {"content": W, "display": "inline"}), ("algorithmic", {"content": Wn}), ("diagram", {"content": W, "name": "tikzpicture"}),
          ("includegraphics", {"content": W}), ("includegraphics", {"content": W, "page": 3}), ("includepdf", {"content": W, "pages": "1-3"}), ("includepdf", {"content": W}),
          ("command", {"command": lambda t: "\\" + t.w()}), ("command", {"command": lambda t: "\\" + t.w(), "content": lambda t: "{%s}" % t.w()})]
CONT = [("footnote", {}), ("title", {}), ("quote", {}), ("abstract", {}), ("environment", {"name": "foo"}), ("math_env", {"name": "lemma", "numbered": True}), ("math_env", {"name": "proof", "numbered": False}),
        ("figure", {"numbered": True}), ("table", {"numbered": True}), ("subfigure", {}), ("caption", {}), ("algorithm", {"name": "algorithm", "numbered": True}), ("email", {}), ("affiliation", {}), ("address", {}), ("keywords", {}), ("figure", {"numbered": False})]

f_s = st.sampled_from([0, 0, 0, 1, 2, 3, 4])
f_l = st.sampled_from([0, 0, 0, 1, 2])
t_t = doc.fd("t", i=st.integers(0, 10), s=f_s)


inl = mix(t_t, t_t, doc.fd("leaf", i=st.sampled_from([i for i, (_, f) in enumerate(LEAVES) if not f.get("numbered")]), s=f_s, l=f_l, y=st.lists(t_t, max_size=2)))
inl = mix(inl, inl, inl, doc.fd("grp", s=f_s, x=st.lists(inl, max_size=3)), doc.fd("cont", i=st.just(0), s=f_s, l=f_l, x=st.lists(inl, max_size=3), y=st.just([])))


def node(d):
    if d == 0:
        return mix(t_t, t_t, t_t, doc.fd("leaf", i=ix(LEAVES), s=f_s, l=f_l, y=st.lists(t_t, max_size=2)))
    sub = st.deferred(lambda: node(d - 1))
    xs = st.lists(sub, max_size=4)
    t0 = st.lists(t_t, max_size=3)
    mc = mix(doc.fd("none"), doc.fd("str", i=st.integers(0, 10)), doc.fd("cell", x=lst(sub, 1, 3)), doc.fd("span", i=st.integers(0, 3), r=st.integers(1, 3), c=st.integers(1, 3), x=xs))
    return mix(node(0), node(0), doc.fd("grp", s=f_s, x=xs), doc.fd("cont", i=ix(CONT), s=f_s, l=f_l, x=xs, y=t0),
                     doc.fd("list", s=f_s, l=f_l, d=st.booleans(), items=st.lists(xs, max_size=3)), doc.fd("tab", s=f_s, l=f_l, rows=st.lists(st.lists(mc, min_size=1, max_size=3), max_size=3)),
                     doc.fd("auth", s=st.just(0), l=f_l, items=st.lists(st.lists(inl, max_size=4), max_size=3)))


s_sec = doc.fd("sec", v=st.integers(0, 4), n=st.sampled_from([True, True, False]), l=f_l, y=st.lists(inl, max_size=3))
s_bib = doc.fd("bib", items=st.lists(case(i=st.integers(0, 11), x=st.lists(inl, max_size=3)), max_size=3))
top = mix(node(2), node(3), t_t, t_t, s_sec, s_sec, s_sec, doc.fd("para", v=st.integers(1, 2), y=st.lists(t_t, max_size=2)), s_bib)


def run_trees(c):
    t = Tree()
    raw, want = t.many(c["x"])
    if c["app"] is not None:  # one appendix, after which everything belongs to it (bibliographies apart: see C12)
        cut = c["app"] % (len(raw) + 1)
        x = [n for n in c["x"][cut:] if n["k"] != "bib"]
        t = Tree()
        raw, want = t.many(c["x"][:cut])
        raw.append({"type": "appendix"})
        r2, w2 = t.many(x)
        raw += r2
        want += [{"type": "appendix", "content": []}] + w2
    got = check(raw, {"c": {"format": "RGB", "value": "1,2,3"}})
    want = assemble(want)
    canon.require_canon(canon.canon(got), want, json.dumps(raw)[:3000])
    kinds = {k["k"] for k in c["x"]}
    if len(raw) > 2:
        return sorted(kinds) + (["deep"] if depth(raw) > 4 else [])


def depth(v):
    if isinstance(v, dict):
        return 1 + max([0] + [depth(x) for x in v.values()])
    if isinstance(v, list):
        return max([0] + [depth(x) for x in v])
    return 0


def assemble(flat):
    """doc.assemble, with a bibliography closing the open sections"""
    out, run, cnt = [], [], None
    if not any(isinstance(t, dict) and t["type"] == "bibliography" for t in flat):
        return doc.assemble(flat)
    # number over the whole document first, with a section marker that closes everything
    marks = []
    for t in flat:
        if isinstance(t, dict) and t["type"] == "bibliography":
            marks.append(t)
            run.append({"type": "section", "level": -1, "title": [], "content": [], "_num": False, "_bib": t})
        else:
            run.append(t)
    for t in doc.assemble(run):
        if isinstance(t, dict) and "_bib" in t:
            out.append(t["_bib"])
            out += t["content"]
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------ documents
def run_docs(c):
    em = doc.Emitter()
    src, _ = em.blks(c["doc"])
    if c["head"]:
        src = "\\documentclass{article}\n\\title{%s}\n\\author{A B\\thanks{c} \\and \\textbf{D} E}\n\\begin{document}\n\\maketitle\n%s\n\\end{document}" % (em.word(), src)
    for op, a, n in c["cut"]:
        a = a % (len(src) + 1)
        if op == 0:
            src = src[:a] + src[a + n:]
        elif op == 1:
            src = src[:a] + src[a:a + n] + src[a:]
        elif op == 2:
            src = src[:a] + SOUP[n % len(SOUP)] + src[a:]
        else:
            b = (a * 7 + n) % (len(src) + 1)
            src = src[:a] + src[b:b + n] + src[a:]
    toks = canon.parse(src, c["pre"])
    got = check(toks)
    if got:
        return sorted(em.seen & {"list", "tab", "thm", "float", "alg", "sec", "sty", "decl", "fn", "app", "env"}) + (["damaged"] if c["cut"] else [])


SOUP = ["{", "}", "$", "\\begin{itemize}", "\\end{itemize}", "\\item", "&", "\\\\", "\\begin{tabular}{cc}", "\\end{tabular}", "\\section{", "\\caption{x}", "\\label{x}", "\\bf", "[", "]", "\\begin{figure}", "\\end{figure}", "\\footnote{", "\\appendix", "\\author{A}", "\\begin{thebibliography}{9}\\bibitem{k} t\\end{thebibliography}",
        "\\cite{a}", "\\begin{equation}", "\\textbf{", "\\multicolumn{2}{c}{x}", "\\foo{a}", "\\verb|x|", "\\keywords{a, b}", "\\affil{x}", "\\title{t}", "\\abstract{x}", "\\email{x}", "\\url{x}", "\\includepdf[pages=1]{x.pdf}", "\\begin{lstlisting}[x]\ny\n\\end{lstlisting}", "\\begin{algorithmic}\\State x\\end{algorithmic}"]

cut = st.tuples(st.integers(0, 3), st.integers(0, 3000), st.integers(1, 40)).map(list)


# ------------------------------------------------------------------ merged proofs (an option of the builder)
def merged(v):
    """the default output with each proof moved into the environment just before it; counts them"""
    n = 0
    if isinstance(v, dict):
        for k in v:
            v[k], m = merged(v[k])
            n += m
        return v, n
    if not isinstance(v, list):
        return v, 0
    out = []
    for x in v:
        x, m = merged(x)
        n += m
        if out and proofs(x) is True and proofs(out[-1]) is False and "proof" not in out[-1]:
            out[-1]["proof"] = x
            n += 1
        else:
            out.append(x)
    return out, n


def proofs(x):
    return x["name"].lower() == "proof" if isinstance(x, dict) and x.get("type") == "math_env" else None


def run_merge(c):
    from latex2json import TokenBuilder
    if "doc" in c:
        em = doc.Emitter()
        src, _ = em.blks(c["doc"])
        thm = ["\\begin{theorem}", "\\begin{proof}", "\\begin{lemma}"]
        src = "\n".join(("%s %s\n%s\\end{%s}" % (thm[k], em.word(), em.blks(b)[0], thm[k][7:-1])) for k, b in c["env"]) + src
        raw = canon.parse(src, False)
    else:
        raw = Tree().many(c["x"])[0]
    before = copy.deepcopy(raw)
    b = TokenBuilder()
    b.merge_proof_environments = True

    def build(b, r):
        return [t.model_dump(mode="json", exclude_none=True) for t in sut("build", b.build, r)]
    got = build(b, raw)
    require(raw == before, "building changed its input", before, raw)
    want, n = merged(build(TokenBuilder(), raw))
    require_eq(got, want, "merging proofs does more than moving them into the environments before them")
    require_eq(build(b, raw), got, "building again gives another result")
    if n:
        return ["merged %d" % min(n, 3)]


m_thm = doc.fd("cont", i=st.sampled_from([5, 5, 6, 6, 4]), s=f_s, l=f_l, x=st.lists(node(2), max_size=3), y=st.lists(t_t, max_size=2))
m_thm = mix(m_thm, m_thm, m_thm, m_thm, m_thm, m_thm, node(2), doc.fd("cont", i=st.sampled_from([5, 6, 0, 2]), s=st.just(0), l=f_l, x=lst(m_thm, 1, 4), y=st.just([])), s_sec)

PROPERTY = Property("C17", [
    Facet("trees", case(x=lst(top, 1, 8), app=mix(st.none(), st.none(), st.integers(0, 9))), run_trees, quick=1500, thorough=40000, shards=8,
          rule="token trees over all published types (styles, labels, titles, numbering, spans, placeholders), more than two tokens at the root"),
    Facet("docs", case(doc=doc.s_doc(2, 6), pre=pre, head=st.booleans(), cut=mix(st.just([]), st.lists(cut, min_size=1, max_size=4))), run_docs, quick=1200, thorough=30000, shards=8,
          rule="tokens of model documents, half of them damaged at up to four places, that give any output"),
    Facet("long", case(x=lst(top, 1, 4), n=st.integers(5, 45)), lambda c: run_trees({"x": copy.deepcopy(c["x"]) * c["n"], "app": None}), quick=150, thorough=3000, shards=8,
          rule="long lists of tokens: up to four trees, repeated up to 45 times"),
    big(case(x=lst(top, 1, 5), app=mix(st.none(), st.none(), st.integers(0, 9))), run_trees, "x", quick=250, name="bigtrees"),
    big(case(doc=doc.s_doc(2, 4), pre=pre, head=st.booleans(), cut=st.just([])), run_docs, quick=200, name="bigdocs"),
    Facet("merge", mix(case(x=lst(m_thm, 2, 7)), case(doc=doc.s_doc(1, 3), env=lst(st.tuples(st.integers(0, 2), doc.s_doc(1, 2)).map(list), 2, 6))), run_merge, quick=500, thorough=12000, shards=8,
          rule="trees and documents with a proof directly after an environment that is none, built with merge_proof_environments: the default output with those proofs moved"),
], "a case is non-trivial when the tree has more than two root tokens, or the document gives output",
    assumptions=["token trees hold at most one appendix; 'date' tokens, which the parser never makes, are left out"])
