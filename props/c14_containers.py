import gzip
import io
import json
import os
import tarfile
import warnings
import zipfile

import canon
import doc
import tree
from hypothesis import strategies as st
from mix import mix
from gen import case, ix, lst
from pbt import Facet, Property, Violation, require, require_eq, sut

MAIN = ["main.tex", "paper.tex", "ms.v2.tex", "0704.0001.tex", "my paper.tex", "zz/main.tex", "a/b/c/article.tex", "src files/x.tex", "my.style.v2/main.tex", "v1.bst-old/ms.tex", "conf.cls.d/sub.bbl/paper.tex", "x.bib/a.tex"]
OTHER = [("README.md", b"\\documentclass{article}"), ("fig/a.png", b"\x89PNG\r\n\x1a\n\x00\xff\xfe"), ("notes.tex", b"just \\section{Notes} text"), ("old/draft.tex", b"% \\documentclass{article}\nold"), ("supp.tex", b"\\section{Supplement}\n%\\begin{document}\n"),
         ("empty.tex", b""), ("00README", b"nohypertex"), ("dir.tex/x.txt", b"x"), ("main.aux", b"\\relax \\begin{document}"), (".hidden.tex", b"hidden"), ("bin.tex", bytes(range(128, 256)) * 3), ("macros.tex", b"\\newcommand{\\foo}{bar}"), ("template.cls", b"\\NeedsTeXFormat{LaTeX2e}"), ("main.tex.bak", b"\\documentclass{x}\\begin{document}no\\end{document}"),
         ("Makefile", b"all:"), ("a.tex~", b"\\documentclass{x}"), ("anc/data.csv", b"1,2")]
CONT = ["file", "folder", "zip", "zip0", "tar.gz", "tgz", "tar.gz.dirs", "gz", "folder/"]
PREP = ["\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n", "\\documentclass[a4paper]{book}\n\\usepackage{x}\n\\begin{document}\n\n%s\n\\end{document}", "%% comment\n\\documentclass\n{article}\n\\begin{document}%%\n%s\n\\end{document}\nafter", "\\begin{document}\n%s\n\\end{document}",
        "\\documentstyle{article}\n\\begin{document}\n%s\n\\end{document}\n", "%% a comment like many others\n" * 900 + "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n"]


def pack(kind, d, files, main, out):
    """-> path to give to the reader"""
    if kind == "file":
        return os.path.join(d, main)
    if kind.startswith("folder"):
        return d + kind[6:]
    if kind.startswith("zip"):
        p = os.path.join(out, "x.zip")
        with zipfile.ZipFile(p, "w", zipfile.ZIP_STORED if kind == "zip0" else zipfile.ZIP_DEFLATED) as z:
            for k, v in files.items():
                z.writestr(k, v)
        return p
    if kind == "gz":
        p = os.path.join(out, "src." + ("gz" if len(files) % 2 else "tex.gz"))
        with gzip.open(p, "wb") as g:
            g.write(files[main])
        return p
    p = os.path.join(out, "x." + kind.replace(".dirs", ""))
    with tarfile.open(p, "w:gz", format=[tarfile.PAX_FORMAT, tarfile.GNU_FORMAT, tarfile.USTAR_FORMAT][len(files) % 3]) as t:
        if kind.endswith(".dirs"):
            for n in sorted({os.path.dirname(k) for k in files} - {""}):
                i = tarfile.TarInfo("./" + n)
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
        for k, v in files.items():
            i = tarfile.TarInfo(("./" if kind.endswith(".dirs") else "") + k)
            i.size, i.mode = len(v), 0o644
            t.addfile(i, io.BytesIO(v))
    return p


def body(data):
    b = canon.canon(data["tokens"])
    if len(b) == 1 and isinstance(b[0], dict) and b[0]["type"] == "document":
        b = b[0]["content"]
    return b


def run(c):
    em = doc.Emitter()
    l, flat = em.blks(c["doc"])
    if c["col"]:
        l = "\\definecolor{%s}{RGB}{1,2,3}\n" % ("col" + em.word()) + l
    w1, w2 = em.word(), em.word()
    single = c["kinds"][0] in ("gz",) or "gz" in c["kinds"]
    main = MAIN[c["main"]]
    base = os.path.dirname(main)
    rel = (base + "/") if base else ""
    files = {}
    if not single:
        l += "\n\n\\section*{%s}\n\\input{parts/extra}" % w1
        flat = flat + [{"type": "section", "level": 1, "title": em.w(w1, []), "content": [], "_num": False}] + em.w(w2, [])
        files[rel + "parts/extra.tex"] = w2.encode()
    want = doc.assemble(flat)
    text = PREP[c["prep"]] % l
    files[main] = text.encode("utf-8")
    for i in c["other"]:
        n, b = OTHER[i]
        if n not in files and rel + n not in files:
            files[n] = b
    if c["second"]:  # another document: any may be taken, but always the same one
        files[["zsupp.tex", "Asupp.tex", "zz/supp.tex", rel + "supp.tex", "0/1.tex", rel + "b.tex"][c["second"] - 1]] = b"\\documentclass{article}\n\\begin{document}\nother\n\\end{document}\n"
    files = dict(sorted(files.items(), key=lambda kv: (hash_(kv[0]) + c["order"]) % 7))
    ref = None
    kinds = [k for k in c["kinds"] if not c["second"] or k not in ("file", "gz")]
    with tree.scratch(files) as d, tree.scratch() as out:
        for k in kinds:
            data = tree.read(pack(k, d, files, main, out), cleanup=c["clean"])
            src = "container %s, files %s\n%s" % (k, sorted(files), text)
            if ref is None:
                ref = data
                got = body(data)
                if c["prep"] == 2 and not c["second"]:
                    got = canon.canon([t for t in data["tokens"] if t["type"] == "document"][0]["content"])
                if c["second"]:
                    pass
                elif single:
                    canon.require_canon(got, want, src)
                    require_eq(data["tokens"], canon.build(canon.parse(text, True)), "tokens of the parsed text", src)
                else:
                    require(w2 in json.dumps(data), "included file is missing", src)
                    canon.require_canon(got, want, src)
            require_eq(data, ref, "tokens and colours", src)
    if len(kinds) > 1 and len(files) > 1:
        return sorted(kinds) + ["two documents"] * bool(c["second"]) + ["%d files" % min(len(files), 6)]


def hash_(s):
    return sum(ord(ch) * (i + 1) for i, ch in enumerate(s))


# ------------------------------------------------------------------ encodings
ENC = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le-bom", "utf-16-be-bom"]
EXOTIC = ["é", "Ünïcödé", "中文字", "русский", "日本", "ñandú", "“q”", "—", "𝒜𝔅", "αβγ", "한국어", "עברית", "العربية", "é", "ç", "Łódź", "½", "№", "€", "🙂", "ﬁ", "ŝ", "ğ", "Å", "ž", "naïve", "ö", "ß", "º", "’s", "y\u00adz", "y\u200dz",  "\ufb03"]
SPACES = ["\u3000", "\u00a0", "\t", "  "]


def encode(s, e):
    if e == "utf-16-le-bom":
        return b"\xff\xfe" + s.encode("utf-16-le")
    if e == "utf-16-be-bom":
        return b"\xfe\xff" + s.encode("utf-16-be")
    return s.encode(e)


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, list):
        for y in x:
            yield from strings(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from strings(y)


def run_enc(c):
    em = doc.Emitter()
    paras, words = [], []
    for p in c["p"]:
        ws = []
        for k in p["w"]:
            w = em.word() + (EXOTIC[k] if k >= 0 else "")
            ws.append(w)
        words += ws
        pad = (em.word() + " word ") * 1 + "plain ascii text " * p["pad"]
        paras.append(pad + [" ", "\n"][p["nl"]].join(ws))
        if p["m"] == 7:  # white space that only code keeps
            words.append(em.word() + SPACES[len(words) % len(SPACES)] + "z")
            paras.append("\\begin{verbatim}\n%s\n\\end{verbatim}" % words[-1])
        elif p["m"]:
            w = em.word() + EXOTIC[p["m"]]
            words.append(w)
            paras.append(["\\section{%s}", "\\begin{verbatim}\n%s\n\\end{verbatim}", "$x_{\\text{%s}}$", "\\textbf{%s}", "\\href{http://x/y}{%s}"][p["m"] % 5] % w)
    text = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n" % "\n\n".join(paras)
    want = canon.build(canon.parse(text, True))
    e = ENC[c["enc"]]
    raw = [text, text.replace("\n", "\r\n"), text.replace("\n", "\r")][c["eol"]]
    from latex2json.tex_reader import TexReader
    with tree.scratch({"main.tex": encode(raw, e)}) as d:
        r = TexReader()
        path = d + "/main.tex" if c["via"] else d
        res = sut("process", r.process, path)
        js = sut("to_json", r.to_json, res)
        sut("save_to_json", r.save_to_json, res, d + "/out/deep/o.json")
        with open(d + "/out/deep/o.json", "rb") as f:
            saved = f.read().decode("utf-8")
    src = "%s, line ends %d\n%s" % (e, c["eol"], text[:3000])
    data = json.loads(js)
    require_eq(json.loads(saved), data, "saved JSON", src)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        require_eq(data["tokens"], json.loads(json.dumps([t.model_dump(mode="json", exclude_none=True) for t in res.tokens])), "JSON against tokens", src)
    require_eq(data["tokens"], want, "tokens of the text", src)
    everything = "\n".join(strings(data["tokens"]))
    for w in words:
        require(w in everything, "text %r was not read correctly" % w, src)
    if any(ord(ch) > 127 for ch in text):
        return [e, ["LF", "CRLF", "CR"][c["eol"]]] + ["long"] * (len(text) > 10000)


# ------------------------------------------------------------------ files that are not Unicode
LANG = ["l'équation générale était démontrée où à côté naïve façon théorème première précédente être même".split(), "Müller Größe für über Lösung können Gleichung schön Straße Übung natürlich".split(),
        "ecuación también señal función número después está así teorema demostración año".split()]
ASCII = "the quick brown fox jumps over lazy dogs while an equation holds in general and proof follows".split()


def run_8bit(c):
    """Latin-1 text of a natural language, or UTF-8 and ASCII text with a few damaged bytes"""
    em = doc.Emitter()
    kind = c["kind"]
    words, out = [], []
    vocabulary = LANG[c["lang"]] if kind == 0 else [e for e in EXOTIC if len(e) > 1]
    for i, k in enumerate(c["w"]):
        w = em.word()
        words.append(w)
        out.append(w)
        out += ASCII[k % 5:5 + k % 11] if kind else ASCII[k % 5:k % 7]
        for v in [vocabulary[(k // 12 * (1 - kind) + 3 * i + j) % len(vocabulary)] for j in range([3, 1, 0][kind])]:
            words.append(v)
            out.append(v)
        if i % 9 == 8:
            out.append("\n\n")
    for k in c["at"] if kind else []:
        out.insert(k % (len(out) + 1), "\0%d\0" % (k % 128))
    pad = "plain ascii text and % a comment\n" * c["pad"]
    body = " ".join(out)
    # what carries the text: the document, a file of it, its bibliography
    text = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n"
    files = {"main.tex": text % (pad + body)}
    if c["where"] == 1:
        files = {"main.tex": text % "\\input{part}", "part.tex": pad + body}
    elif c["where"] == 2:
        files = {"main.tex": text % "\\bibliography{refs}", "refs.bib": "@misc{a,\n  title={%s}\n}\n" % body.replace("\n\n", " ")}

    def enc(s):
        b = s.encode("utf-8" if kind else ["latin-1", "cp1252", "iso8859-15"][c["enc"]])
        for k in range(128):
            b = b.replace(b"\0%d\0" % k, bytes([128 + k]))
        return b
    files = {k: enc(v) for k, v in files.items()}
    with tree.scratch(files) as d:
        data = tree.read(d + "/main.tex")
    got = "\n".join(strings(data["tokens"]))
    src = "%s\n%s" % (["8-bit text", "damaged UTF-8", "damaged ASCII"][kind], repr(files)[-1500:])
    for w in words:
        if w not in got:
            raise Violation("word %r was not read correctly\n%s\n--- got %r" % (w, src, got[:1500]))
    return [["8-bit text", "damaged UTF-8", "damaged ASCII"][kind], ["document", "input", "bibliography"][c["where"]]] + ["long"] * (c["pad"] > 300)


s_p = st.fixed_dictionaries({"w": st.lists(mix(st.just(-1), ix(EXOTIC)), min_size=1, max_size=5), "nl": st.integers(0, 1), "pad": st.sampled_from([0, 0, 0, 0, 3, 40, 600, 588, 300]), "m": st.sampled_from([0, 0, 0] + [7, 7] + list(range(1, len(EXOTIC))))})

PROPERTY = Property("C14", [
    Facet("containers", case(doc=doc.s_doc(1, 4), kinds=st.lists(st.sampled_from(CONT), min_size=2, max_size=4, unique=True), main=ix(MAIN), other=st.lists(ix(OTHER), max_size=6, unique=True), prep=ix(PREP), order=st.integers(0, 6), clean=st.booleans(), second=st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]), col=st.booleans()),
          run, quick=800, thorough=30000, shards=8, rule="documents with other files around them read from files, folders and archives, at least two containers and files"),
    Facet("encodings", case(p=lst(s_p, 1, 5), enc=ix(ENC), eol=st.integers(0, 2), via=st.booleans()), run_enc, quick=1500, thorough=30000, shards=8,
          rule="documents with characters outside ASCII in five encodings and three line ends, short and longer than the detector's sample"),
    Facet("bytes", case(kind=st.integers(0, 2), lang=ix(LANG), w=st.lists(st.integers(0, 999), min_size=12, max_size=40), at=st.lists(st.integers(0, 9999), min_size=1, max_size=3), pad=st.sampled_from([0, 0, 3, 30, 310, 700]), where=st.integers(0, 2), enc=st.integers(0, 2)),
          run_8bit, quick=600, thorough=20000, shards=8, rule="text of three languages in 8-bit encodings, and UTF-8 or ASCII text with damaged bytes, in documents, their parts and bibliographies"),
], "a case is non-trivial when two containers hold more than one file, or the text has characters outside ASCII")
