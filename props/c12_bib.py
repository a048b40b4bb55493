import canon
import doc
import tree
from hypothesis import strategies as st
from mix import mix
from gen import case, ix, lst, pre
from grow import grown
from pbt import Facet, Property, Violation, require, require_eq, sut

TYPES = ["article", "Book", "INPROCEEDINGS", "misc", "phdThesis", "online", "techreport", "incollection"]
KEYS = ["smith%d", "DBLP:conf/nips/Doe%d", "a_b-%d", "10.1000/x.%d", "Müller%d", "%d2020abc", "o'neil+%d", "arXiv:%d"]
FIELDS = ["author", "Title", "YEAR", "journal", "note", "date-added", "bdsk-url-1", "archivePrefix", "url", "doi", "abstract", "pages", "month", "eprint", "x_y", "language"]
PARTS = ["%s", "%s", "{%s {B}}", "{\\\"o}%s", "{{\\'e}}%s", "$x_1 = 2$ %s", "50\\%% %s", "%s, %s", "%s = %s", "# %s", "é中 %s", "%s and %s", "{\\it %s}", "@foo{%s, y = {z}}", "http://h/%s%%20b_c~d?e=f&g", "%s -- %s", "{\\{} %s {\\}}", "A. {de} %s", "(%s)", "%s;", "\\url{http://%s}", "~%s", "title = %s"]
QUOTES = ["\"%s\"", "``%s''"]


class Em(doc.Emitter):
    def fill(self, p):
        return p.replace("%%", "\0").replace("%s", "{}") if False else "".join(x if i == 0 else self.word() + x for i, x in enumerate(p.replace("%%", "\0").split("%s"))).replace("\0", "%")


def value(em, nd, abbr):
    """-> source, value"""
    k = nd["k"]
    if k == 0:
        n = str(nd["n"])
        return n, n
    if k == 1:
        if nd["n"] % 3 == 0 and abbr:
            names = sorted(abbr)
            n = names[nd["n"] % len(names)]
            return [n, n.upper(), n.capitalize()][nd["n"] % 3 - 1] if False else n, abbr[n]
        return "jan", "jan"
    text = [em.fill(PARTS[i]) for i in nd["x"]]
    if k == 2:
        if nd["q"]:
            text.append(em.fill(QUOTES[nd["q"] - 1]))
        s = ["\n   ", " "][nd["n"] % 2].join(text)
        s = s if nd["n"] % 5 else " %s " % s
        return "{%s}" % s, s
    if k == 3:
        s = " ".join(text)
        s = s.replace('"', "'") if "{" not in s else s  # quotes only in braces
        return '"%s"' % s, s
    a, va = value(em, dict(nd, k=3), abbr)
    b, vb = value(em, dict(nd, k=1), abbr)
    sep = [" # ", "#", " #\n  "][nd["n"] % 3]
    if nd["n"] % 7 < 3:
        w = [" %s ", "%s ", " %s"][nd["n"] % 7] % em.word()
        a, va = (a + sep + "{%s}" % w, va + w) if nd["n"] % 2 else ("{%s}" % w + sep + a, w + va)
    return (a + sep + b, va + vb) if nd["q"] % 2 else (b + sep + a, vb + va)


def ws(s):
    return " ".join(s.split())


def squeeze(s):
    return "".join(s.split())


JUNK = ["", "\n", "% a comment @article{no, x={y}}\n", "some text between\n", "@comment{no, title = {x}}\n", "@Comment{jabref-meta: a, b = c;}\n", "@preamble{\"\\newcommand{\\x}{y}, z = 1\"}\n", "   %% @misc{z,}\n"]


def bibtex(em, entries):
    """-> text, [(key, type, fields)]"""
    out, want, abbr = [], [], {}
    for e in entries:
        out.append(JUNK[e["junk"]])
        if e.get("abbr"):
            name = "abbr" + em.word()
            src, v = value(em, e["abbr"], abbr)
            abbr[name] = v
            out.append("@%s{%s = %s}\n" % (["string", "String", "STRING"][e["abbr"]["n"] % 3], name, src))
        em.nl += 1
        key = KEYS[e["key"]] % em.nl
        ty = TYPES[e["t"]]
        fields, src, seen = {}, [], set()
        for f, v in e["f"]:
            name = FIELDS[f]
            if name in seen:
                continue
            seen.add(name)
            s, val = value(em, v, abbr)
            fields[name.lower()] = ws(val)
            src.append("%s%s%s" % (name, [" = ", "=", "   =  ", " =\n"][v["n"] % 4], s))
        sep = [",\n  ", ", ", " ,\n"][e["sep"]]
        tail = ["", ",", ",\n", "\n"][e["tail"]]
        out.append("@%s%s{%s%s%s%s}\n" % (ty, ["", " "][e["sep"] == 2], key, "," if src or e["sep"] else "", ("\n  " if e["sep"] == 0 else " ") + sep.join(src), tail))
        want.append((key, ty.lower(), fields))
    return "".join(out), want


val = doc.fd("_", x=st.just([])).flatmap(lambda _: st.fixed_dictionaries({"k": st.integers(0, 4), "x": st.lists(ix(PARTS), min_size=1, max_size=3), "q": st.integers(0, 2), "n": st.integers(0, 2030)}))
s_entry = st.fixed_dictionaries({"junk": ix(JUNK), "abbr": doc.opt(val), "key": ix(KEYS), "t": ix(TYPES), "f": st.lists(st.tuples(ix(FIELDS), val).map(list), max_size=5), "sep": st.integers(0, 2), "tail": st.integers(0, 3)})


def check_bibtex(items, want, src):
    require_eq([i[0] for i in items], [w[0] for w in want], "keys of the entries", src)
    for i, w in zip(items, want):
        require_eq({k: ws(v) for k, v in (i[1] or {}).items()}, w[2], "fields of %s" % w[0], src)
        require_eq(list(i[1] or {}), list(w[2]), "order of the fields of %s" % w[0], src)
        full = "@%s{%s,%s}" % (w[1], w[0], ",".join("%s={%s}" % f for f in w[2].items()))
        require_eq(squeeze(i[2]), squeeze(full), "text of %s" % w[0], src)
        require_eq(i[3], "bibtex", "format of %s" % w[0], src)


def parse(text):
    from latex2json.parser.bib.bib_parser import BibParser
    return sut("BibParser.parse", BibParser().parse, text)


def run_bib(c):
    em = Em()
    src, want = bibtex(em, c["e"])
    got = parse(src)
    check_bibtex([(e.citation_key, e.fields, e.content, e.format) for e in got], want, src)
    require_eq([e.entry_type for e in got], [w[1] for w in want], "types of the entries", src)
    if sum(len(w[2]) for w in want) > 1:
        return ["entries", "%d entries" % min(len(want), 3)] + [["number", "abbreviation", "braces", "quotes", "joined"][v["k"]] for e in c["e"] for _, v in e["f"]]


# ------------------------------------------------------------------ thebibliography
LABELS = [None, None, None, "1", "Foo et~al.(2020)Foo, Bar", "{\\citenamefont {Foo}(2020)}", "ABC{\\natexlab{a}}", "A{\\etalchar{+}}99", "Müller99", "{[X]}"]
REV = ["\\BibitemOpen\n  \\bibfield  {author} {%s}\\BibitemShut {NoStop}%%", "%s\\bibitemNoStop", "%s\\bibitemStop "]
HEAD = ["", "%apsrev4-1.bst\n", "\\newcommand{\\enquote}[1]{``#1''}\n"]
HEAD2 = ["", "\\makeatletter\n\\providecommand \\@ifxundefined [1]{%\n \\@ifx{#1\\undefined}\n}%\n\\providecommand \\natexlab [1]{#1}%\n\\providecommand \\bibitemNoStop [0]{.\\EOS\\space}%\n\\let\\auto@bib@innerbib\\@empty\n%</preamble>\n",
         "\\providecommand{\\natexlab}[1]{#1}\n\\expandafter\\ifx\\csname urlstyle\\endcsname\\relax\n  \\providecommand{\\doi}[1]{doi: #1}\\else\n  \\providecommand{\\doi}{doi: \\begingroup \\urlstyle{rm}\\Url}\\fi\n\n", "\\bibitemsep 2pt\n\\itemsep=0pt\n\\small\n"]


def bibitems(em, items, h2):
    out, want = [HEAD2[h2]], []
    prev = None
    for it in items:
        em.nl += 1
        key = KEYS[it["key"]] % em.nl
        parts, c = [], []
        first, fc = em.inl(it["a"])  # author part
        if it["bysame"] and prev:
            parts.append("\\bysame")
            c += prev
        else:
            parts.append(first)
            c += fc
            prev = fc if it["simple"] else None
        parts[0] += ","
        c += em.w(",", [])
        for nodes in it["x"]:
            l, cc = em.inl(nodes)
            parts.append(l)
            c += cc
        sep = [" ", "\n\\newblock ", "\n  ", " % note \\bibitem{x}\n"][it["sep"]]
        body = sep.join(parts)
        lab = LABELS[it["lab"]]
        o = "" if lab is None else ["[%s]", " [%s]"][it["sep"] == 1] % lab
        out.append("\\bibitem%s%s{%s}%s%s" % (o, ["", " "][it["sep"] == 2 and lab is not None], key, ["\n", " ", "%\n"][it["g"]], body))
        w = {"type": "bibitem", "format": "bibitem", "cite_key": key, "content": c, "fields": {}}
        if lab is not None:
            w["label"] = lab
        want.append(w)
    return ["\n", "\n\n"][h2 % 2].join(out), want


word1 = lst(doc.s_word, 1, 1)
binl = doc.s_inl(1, 1, 3, leaves=[doc.s_text, doc.s_text, doc.s_math, doc.s_url, doc.s_esc], wraps=("sty", "decl", "grp", "href"))
s_item = st.fixed_dictionaries({"key": ix(KEYS), "a": word1, "simple": st.just(True), "bysame": st.sampled_from([False, False, True]), "x": lst(binl, 1, 3), "sep": st.integers(0, 3), "lab": ix(LABELS), "g": st.integers(0, 2)})


def run_items(c):
    em = Em()
    src, want = bibitems(em, c["items"], c["h2"])
    w = em.word()
    par, t = em.inl(c["before"]), c["env"]
    src = "%s\n\n\\begin{thebibliography}{99}%s%s\n\\end{thebibliography}\n%s" % (par[0], ["\n", "%\n"][c["h2"] % 2], src, w if c["after"] else "")
    got = canon.canon(canon.process(src, c["pre"], spaces=False))
    exp = par[1] + (em.w(w, []) if c["after"] else [])
    b = [x for x in got if isinstance(x, dict) and x["type"] == "bibliography"]
    rest = [x for x in got if not (isinstance(x, dict) and x["type"] == "bibliography")]
    canon.require_canon(rest, exp, src)
    require_eq(len(b), 1, "number of bibliographies", src)
    canon.require_canon(b[0]["content"], want, src)
    return ["items"] + (["labels"] if any(LABELS[i["lab"]] for i in c["items"]) else []) + (["bysame"] if any(i["bysame"] for i in c["items"]) else [])


# ------------------------------------------------------------------ bibdiv and biblatex
def run_bibdiv(c):
    em = Em()
    out, want = [], []
    for e in c["e"]:
        em.nl += 1
        key = KEYS[e["key"]] % em.nl
        ty = TYPES[e["t"]].lower()
        fields, src = {}, []
        for f, v in e["f"]:
            name = ["author", "title", "date", "journal", "doi", "review", "pages"][f % 7]
            x, val = [("{%s}", "%s"), ("{{%s}, A.}", "%s, A."), ("{\\emph{%s} b}", "\\emph{%s} b"), ("{a, %s = c}", "a, %s = c"), ("{\\MR{%s}}", "\\MR{%s}"), ("{%s\n   b}", "%s b")][v["n"] % 6]
            w = em.word()
            fields[name] = (fields[name] + " and " if name in fields else "") + val % w
            src.append("%s=%s" % (name, x % w))
        if not src:
            src, fields = ["note={%s}" % key], {"note": key}
        out.append("\\bib%s{%s}{%s}{\n  %s,\n}\n" % (["", "", "*", " "][len(src) % 4], key, ty, ",\n  ".join(src)))
        want.append((key, ty, fields))
    src = "\\begin{bibdiv}\n\\begin{biblist}\n%s\n\\end{biblist}\n\\end{bibdiv}\n" % "\n".join(out)
    check_bibtex([(e.citation_key, e.fields, e.content, e.format) for e in parse(src)], want, src)
    w = em.word()
    toks = [t for t in canon.process(w + "\n\n" + src, c["pre"], spaces=False) if t["type"] == "bibliography"]
    require_eq(len(toks), 1, "number of bibliographies", src)
    check_bibtex([(t["cite_key"], t.get("fields"), t["content"], t["format"]) for t in toks[0]["content"]], want, src)
    return ["bibdiv"]


# initial (None: its first letter) and form of a given name, None: no given name
GIVEN = [(None, "%s"), (None, "%s"), ("É", "É%s"), ("{\\'E}", "{\\'E}%s"), ("\\'E", "\\'E%s"), ("\\'{E}", "\\'{E}%s"), ("\\v{S}", "\\v{S}%s"), ("{\\v S}", "{\\v S}%s"),
         ("{\\O}", "{\\O}%s"), (None, "{%s-Luc}"), (None, "%s John"), (None, None), (None, "%s\\bibnamedelima Bob"), ("{\\\"{O}}", "{\\\"{O}}%s")]


def run_biblatex(c):
    em = Em()
    out, want = [], []
    for e in c["e"]:
        em.nl += 1
        key = KEYS[e["key"]] % em.nl
        ty = TYPES[e["t"]].lower()
        fields, src = {}, []
        if e["auth"]:
            names, people = [], []
            for k in e["auth"]:
                fam, giv = em.word(), em.word()
                ini, form = GIVEN[k // 2 % len(GIVEN)]
                if form is not None:
                    giv, ini = form % giv, ini or giv[0]
                pre = ["", "", "von", "{de la}"][k // 2 % 4] if k > 5 else ""
                people.append("      {{%shash=AB%d}{%%\n         family={%s},\n         familyi={%s\\bibinitperiod},\n%s%s      }}%%\n" % (
                    ["", "un=0,uniquepart=base,"][k % 2], len(people), fam, fam[0],
                    "         given={%s},\n         giveni={%s\\bibinitperiod},\n" % (giv, ini) if form is not None else "",
                    "         prefix={%s},\n         prefixi={d\\bibinitperiod},\n" % pre if pre else ""))
                names.append((pre + " " if pre else "") + (fam if form is None else "%s, %s." % (fam, ini)))
            src.append("    \\name{author}{%d}{}{%%\n%s    }\n" % (len(people), "".join(people)))
            fields["author"] = " and ".join(names)
        for f, v in e["f"]:
            name = ["title", "year", "journaltitle", "note", "labeltitlesource", "doi", "publisher", "url", "eprint", "location"][f % 10]
            out_name = {"journaltitle": "journal"}.get(name, name)
            if out_name in fields:
                continue
            w = em.word()
            if name in ("doi", "url", "eprint"):
                val = ["10.1/%s", "http://h/%s_x~y#z", "%s", "http://h/%s%%20x%%3Dy"][v["n"] % 4] % w
                src.append("    \\verb{%s}\n    \\verb %s\n    \\endverb\n" % (name, val))
            elif name in ("publisher", "location"):
                b = em.word()
                val = [w, w + " and " + b][v["n"] % 2]
                src.append("    \\list{%s}{%d}{%%\n%s    }\n" % (name, val.count("and") + 1, "".join("      {%s}%%\n" % x for x in val.split(" and "))))
            else:
                val = ["%s", "{%s} $x_1$", "%s: a, b", "\\emph{%s}", "%s = \\url{http://x/y}", "a @b{%s, c}"][v["n"] % 6] % w
                src.append("    \\field{%s}{%s}\n" % (name, val))
            if name != "labeltitlesource":
                fields[out_name] = val
        src.append("    \\strng{namehash}{X%d}\n" % em.nl)
        out.append("  \\entry{%s}{%s}{}%s\n%s  \\endentry\n" % (key, ty, ["", "{}"][e["sep"] % 2], "".join(src)))
        want.append((key, ty, fields))
    src = ["", "\\refsection{0}\n"][c["pre"]] + "  \\datalist[entry]{nty/global//global/global}\n" + "".join(out) + "  \\enddatalist\n\\endinput\n"
    got = parse(src)
    require_eq([e.citation_key for e in got], [w[0] for w in want], "keys of the entries", src)
    for e, w in zip(got, want):
        require_eq({k: ws(v) for k, v in e.fields.items()}, w[2], "fields of %s" % w[0], src)
        require_eq(e.entry_type, w[1], "type of %s" % w[0], src)
    return ["biblatex"] + (["authors"] if any(e["auth"] for e in c["e"]) else [])


# ------------------------------------------------------------------ files
ENC = ["utf-8", "utf-8-sig", "utf-16"]


def run_files(c):
    em = Em()
    files, names, lists = {}, [], []
    for i, f in enumerate(c["files"]):
        src, w = bibtex(em, f["e"])
        if f["dup"] and lists:
            first = lists[0][0]
            key = first["cite_key"] if isinstance(first, dict) else first[0]
            if f["dup"] == 2:  # another entry: its key differs in case
                key = key.swapcase()
            src += "@misc{%s, title={other}}\n" % key
            w = w + [(key, "misc", {"title": "other"})]
        name = ["refs%d", "my.refs-%d", "bib/refs%d", "refs_%d"][f["n"]] % i
        path = name + ".bib"
        if f["bbl"]:
            src, items = bibitems(em, f["items"], f["n"])
            src = "\\begin{thebibliography}{9}\n%s\n\\end{thebibliography}\n" % src
            path = name + ".bbl"
            if c["decoy"]:
                files[name + ".bib"] = b"@misc{decoy, title={no}}"
            w = items
        files[path] = src.encode(ENC[f["enc"]])
        lists.append(w)
        names.append(name + (path[-4:] if f["ext"] else ""))
    if c["fall"]:  # what a name without file stands for
        src, w = bibitems(em, c["fall"], 0)
        n = "paper.bbl" if c["decoy"] and not any(k.endswith(".bbl") and "/" not in k for k in files) else "main.bbl"
        files[n] = ("\\begin{thebibliography}{9}\n%s\n\\end{thebibliography}\n" % src).encode()
    else:
        w = []
    if c["missing"] and (c["fall"] or c["missing"] > 2 or not any(n.endswith(".bbl") for n in files)):
        at = c["sep"] % (len(names) + 1)
        names.insert(at, ["nofile", "nofile.bib", "nodir/nofile"][c["missing"] - 1])
        lists.insert(at, w if c["missing"] < 3 else [])
    cmds = []
    if c["cmd"] < 2:
        cmds = ["\\bibliography{%s}" % [",", ", ", ",\n ", " , "][c["sep"]].join(names)]
        if c["cmd"] == 0:
            cmds.insert(0, "\\bibliographystyle{plain}")
        lists = [[x for l in lists for x in l]]
    else:  # one resource at a time
        cmds = ["\\addbibresource{%s}" % n for n in names]
    if c["cmd"] < 2 and c["sep"] == 3 and not c["fall"] and c["via"] == 0:
        # a macro knows the names
        cmds[-1] = "\\newcommand{\\bibs}{%s}\n\\bibliography{\\bibs}" % ",".join(names)
    want = []
    for l in lists:
        seen, out = set(), []
        for x in l:
            k = x["cite_key"] if isinstance(x, dict) else x[0]
            if k not in seen:
                seen.add(k)
                out.append(x)
        want.append(out)
    w0, w1 = em.word(), em.word()
    cmd = "\n".join(cmds)
    root = ["", "paper/", "a b/c/"][c["root"]]
    tree_files = {root + k: v for k, v in files.items()}
    if c["via"] == 1:
        tree_files[root + "sec/back.tex"] = cmd + "\n"
        place = "\\input{sec/back}"
    else:
        place = cmd if c["via"] == 0 else "\\printbibliography[title={References}]"
    main = "\\documentclass{article}\n%s\\begin{document}\n%s\n\n%s\n\n%s\n\\end{document}\n" % (cmd + "\n" if c["via"] == 2 else "", w0, place, w1)
    tree_files[root + "main.tex"] = main
    with tree.scratch(tree_files) as d:
        data = tree.read("%s/%smain.tex" % (d, root))
    shown = {k: v.decode("utf-16" if v[:2] in (b"\xff\xfe", b"\xfe\xff") else "utf-8") for k, v in files.items()}
    src = main + "%s\n" % cmd + "\n".join("=== %s\n%s" % x for x in shown.items())
    out = []

    def find(x):
        if isinstance(x, list):
            for y in x:
                find(y)
        elif isinstance(x, dict):
            if x.get("type") == "bibliography":
                out.append(x)
            else:
                find(x.get("content"))
    find(data["tokens"])
    require_eq(len(out), len(want), "number of bibliographies", src)
    for o, ws_ in zip(out, want):
        items = o["content"]
        require_eq([i["cite_key"] for i in items], [w["cite_key"] if isinstance(w, dict) else w[0] for w in ws_], "keys of the bibliography", src)
        for i, w in zip(items, ws_):
            if isinstance(w, dict):
                canon.require_canon(canon.canon([i]), [w], src)
            else:
                check_bibtex([(i["cite_key"], i.get("fields"), i["content"], i["format"])], [w], src)
    body = [t["content"] for t in data["tokens"] if t["type"] == "document"]
    body = body[0] if body else data["tokens"]
    canon.require_canon([x for x in canon.canon(body) if not (isinstance(x, dict) and x["type"] == "bibliography")], em.w(w0, []) + em.w(w1, []), src)
    return ["files"] + ["bbl"] * any(f["bbl"] for f in c["files"]) + ["several"] * (len(c["files"]) > 1) + ["duplicate"] * any(f["dup"] == 1 for f in c["files"][1:]) + ["missing"] * bool(c["missing"]) + ["fallback"] * bool(c["fall"] and c["missing"] in (1, 2)) + [["in the text", "in an input file", "in the preamble"][c["via"]]]


s_small = st.fixed_dictionaries({"junk": ix(JUNK), "abbr": st.none(), "key": ix(KEYS), "t": ix(TYPES), "f": st.lists(st.tuples(ix(FIELDS), val).map(list), max_size=2), "sep": st.integers(0, 2), "tail": st.integers(0, 3)})
s_file = st.fixed_dictionaries({"e": lst(s_small, 1, 3), "items": lst(s_item, 1, 2), "bbl": st.sampled_from([False, False, True]), "dup": st.integers(0, 2), "n": st.integers(0, 3), "ext": st.booleans(), "enc": ix(ENC)})
s_div = st.fixed_dictionaries({"key": ix(KEYS), "t": ix(TYPES), "f": st.lists(st.tuples(st.integers(0, 9), val).map(list), max_size=5), "sep": st.integers(0, 1), "auth": st.lists(st.integers(0, 27), max_size=3)})

PROPERTY = Property("C12", [
    Facet("bibtex", case(e=lst(s_entry, 1, 4)), run_bib, quick=2500, thorough=100000, shards=8,
          rule="BibTeX text with all value forms (braces, quotes, numbers, abbreviations, concatenations), comments, preambles and junk between entries"),
    Facet("bibitems", case(items=lst(s_item, 1, 4), h2=ix(HEAD2), before=doc.s_inl(0, 1, 2), env=st.just(0), after=st.booleans(), pre=pre), run_items, quick=1200, thorough=40000, shards=8,
          rule="thebibliography environments with labels, newblocks, repeated authors and formatted content"),
    Facet("bibdiv", case(e=lst(s_div, 1, 3), pre=pre), run_bibdiv, quick=600, thorough=10000, shards=4, rule="bibdiv blocks with repeated fields and braces"),
    Facet("biblatex", case(e=lst(s_div, 1, 3), pre=pre), run_biblatex, quick=800, thorough=15000, shards=4, rule="compiled biblatex entries with names, lists, verbatim and plain fields"),
    Facet("files", case(files=lst(s_file, 1, 3), cmd=st.integers(0, 2), sep=st.integers(0, 3), missing=st.sampled_from([0, 0, 1, 2, 3]), fall=mix(st.just([]), lst(s_item, 1, 2)), via=st.integers(0, 2), decoy=st.booleans(), root=st.integers(0, 2)), run_files, quick=800, thorough=15000, shards=8,
          rule="documents with one to three .bib or .bbl files in several layouts and encodings, with duplicate keys, missing files and what stands for them, named in the text, in included files or the preamble"),
], "a case is non-trivial when it holds two fields or items")
grown(PROPERTY, 150)
