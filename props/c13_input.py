import canon
import doc
import tree
from hypothesis import strategies as st
from mix import mix
from gen import case, ix, lst
from grow import big
from pbt import Facet, Property, require_eq

NAMES = ["f%d", "sub/f%d", "a.b-%d", "my file %d", "sub/deep/x_%d", "f%d.v2"]
CMDS = ["\\input{%s}", "\\input{%s.tex}", "\\include{%s}", "\\input {%s}", "\\input{ %s }", "\\input{./%s}", "\\input %s ", "\\input %s.tex\n"]
TAIL = ["", "\n", "\n\n", " % end", "\n\\endinput\n", "\n%%% Local Variables:\n%%% TeX-master: \"main\"\n"]
HEAD = ["", "% !TEX root = main.tex\n", "\n\n", "\ufeff"]


class Em(doc.Emitter):
    """writes runs of blocks to files as told by the stream of decisions"""

    def __init__(self, dec, split):
        super().__init__()
        self.dec, self.split, self.files, self.level, self.deep = list(dec), split, {}, 0, 0
        self.defs = []
        self.nest, self.bymac = 0, False

    def blks(self, nodes):
        d = self.dec.pop(0) if self.dec else None
        if not d or not d["on"] or not nodes:
            return super().blks(nodes)
        a = d["at"] % len(nodes)
        b = min(len(nodes), a + 1 + d["len"])
        parts, can = [], []
        if nodes[:a]:
            l, c = super().blks(nodes[:a])
            parts.append(l)
            can += c
        self.level += 1
        self.deep = max(self.level, self.deep)
        l, c = self.blks(nodes[a:b])
        self.level -= 1
        can += c
        parts.append(self.file(l, d))
        if nodes[b:]:
            l, c = super().blks(nodes[b:])
            parts.append(l)
            can += c
        return "\n\n".join(parts), can

    def file(self, text, d):
        # a macro knows the name of the file, which is read later than others: no switches then
        mac = (d["cmd"] + d["tail"] + d["name"]) % 4 == 1 and not any(k in (4, 5) for k, _, _ in self.defs)
        self.bymac |= mac
        if not self.split:
            return text
        name = NAMES[d["name"]] % len(self.files)
        cmd = CMDS[d["cmd"]]
        if " " in name or name.endswith(".v2"):
            cmd = "\\input{%s}"
        if mac and cmd.endswith("}"):
            x = "qf" + doc._letters(len(self.files))
            a, b = [("", name), ("", name), (name.split("/")[0], name[len(name.split("/")[0]):])][len(self.files) % 3]
            a, b = (name, "") if not a or b[:1].isalpha() else (a, b)
            cmd = "\\def\\%s{%s}" % (x, a.replace("%", "%%")) + cmd.replace("%s", "\\%s%s" % (x, b))
            self.seen.add("name by a macro")
            self.files[name + ".tex"] = HEAD[d["head"]] + text + TAIL[d["tail"]].replace("\\endinput", "")
            return cmd + ("\\input{missing/file}" if d["miss"] else "")
        tail = TAIL[d["tail"]].replace("\\endinput", "")
        self.files[name + ".tex"] = HEAD[d["head"]] + text + tail
        return cmd % name + ("\\input{missing/file}" if d["miss"] else "")

    def part(self, lc):
        """a single block, also inside a float, in its own file"""
        d = self.dec.pop(0) if self.dec else None
        if not d or not d["on"]:
            return lc
        return self.file(lc[0], d), lc[1]

    def b_tab(self, nd):
        return self.part(super().b_tab(nd))

    def b_diag(self, nd):
        return self.part(super().b_diag(nd))

    def b_img(self, nd):
        return self.part(super().b_img(nd))

    def b_code(self, nd):
        return self.part(super().b_code(nd))

    def b_par(self, nd):
        d = self.dec.pop(0) if self.dec else None
        if not d or not d["on"] or not d["inl"]:
            return self.inl(nd["x"])
        a = d["at"] % len(nd["x"])
        b = min(len(nd["x"]), a + 1 + d["len"])
        runs = [self.inl(x) for x in (nd["x"][:a], nd["x"][a:b], nd["x"][b:])]
        runs[1] = self.file(runs[1][0], dict(d, tail=d["tail"] % 2, head=0, miss=False)), runs[1][1]
        src = " ".join(l for l, _ in runs if l)
        if self.split and runs[1][0].endswith("}") and runs[2][0][:1].isalpha():
            # the end of the file is a space
            src = " ".join(l for l, _ in runs[:2] if l) + runs[2][0]
        return src, sum([c for _, c in runs], [])

    def b_again(self, nd):
        """the same file more than once"""
        l, c = self.inl(nd["x"])
        sep = ["\n\n", " ", "\n", ""][nd["s"]]
        if not self.split:
            return (sep or " ").join([l] * nd["n"]), c * nd["n"]
        cmd = self.file(l, dict(nd, miss=False))
        if not cmd.endswith("}"):
            sep = " "
        return sep.join([cmd] * nd["n"]), c * nd["n"]

    def b_chain(self, nd):
        """files within files"""
        l, c = self.inl(nd["x"])
        for _ in range(nd["n"]):
            a, b = self.word(), self.word()
            l = a + " " + self.file(l, dict(nd, miss=False)) + "\n" + b
            c = self.w(a, []) + c + self.w(b, [])
        self.seen.add("chain")
        return l, c

    # definitions and their uses
    def define(self, k):
        k = k - 4 if self.bymac and k in (4, 5) else k
        n = "qx" + doc._letters(len(self.defs))
        w = self.word()
        src = ["\\newcommand{\\%s}[1]{%s #1}", "\\def\\%s#1{%s \\textbf{#1}}", "\\newtheorem{%s}{%s}", "\\newenvironment{%s}[1]{%s #1}{}", "\\newif\\if%s \\%sfalse %% %s", "\\newif\\if%s \\%strue %% %s",
               "\\definecolor{%s}{rgb}{1,0,0} %% %s", "\\DeclareMathOperator{\\%s}{%s}"][k]
        self.defs.append((k, n, w))
        return src % ((n, n, w) if k in (4, 5) else (n, w))

    def block(self, nd):
        self.nest += 1
        out = super().block(nd)
        self.nest -= 1
        return out

    def b_redef(self, nd):
        """change the meaning from here on"""
        i = nd["i"] % max(1, len(self.defs))
        k, n, w = self.defs[i] if self.defs else (None, None, None)
        a = self.word()
        if self.nest > 1 or k not in (0, 1, 4, 5):
            return a, self.w(a, [])
        if k in (4, 5):
            self.defs[i] = (9 - k, n, w)
            return "\\%s%s\n%s" % (n, "true" if k == 4 else "false", a), self.w(a, [])
        self.defs[i] = (nd["n"], n, a)
        return ["\\renewcommand{\\%s}[1]{%s #1}", "\\def\\%s#1{%s \\textbf{#1}}"][nd["n"]] % (n, a), []

    def b_use(self, nd):
        if not self.defs:
            return self.inl([{"k": "t", "n": 1, "f": 0}])
        k, n, w = self.defs[nd["i"] % len(self.defs)]
        a, b = self.word(), self.word()
        if k == 0:
            return "\\%s{%s} %s" % (n, a, b), self.w(w, []) + self.w(a, []) + self.w(b, [])
        if k == 1:
            return "\\%s{%s} %s" % (n, a, b), self.w(w, []) + self.w(a, ["bold"]) + self.w(b, [])
        if k == 2:
            return "\\begin{%s}\n%s\n\\end{%s}" % (n, a, n), [{"type": "environment", "name": w, "content": self.w(a, [])}]
        if k == 3:
            return "\\begin{%s}{%s}\n%s\n\\end{%s}" % (n, a, b, n), [{"type": "environment", "name": n, "content": self.w(w, []) + self.w(a, []) + self.w(b, [])}]
        if k in (4, 5):
            return "\\if%s %s\\else %s\\fi" % (n, a, b), self.w(a if k == 5 else b, [])
        if k == 6:
            return "\\textcolor{%s}{%s}" % (n, a), self.w(a, ["color=" + n])
        m = "%s %s" % (self.math([1]), n)
        return "$x \\%s y$" % n, [self.tok("equation", [], content="x %s y" % w)]


def build(c, split):
    em = Em(c["dec"], split)
    defs = [em.define(k) for k in c["defs"]]
    head = []
    for i, d in enumerate(c["dp"]):
        run = defs[i * 2:i * 2 + 2]
        if run:
            head.append(em.file("\n".join(run), d) if d["on"] else "\n".join(run))
    head += defs[len(c["dp"]) * 2:]
    l, flat = em.blks(c["doc"])
    main = "\\documentclass{article}\n%s\n\\begin{document}\n%s\n\\end{document}\n" % ("\n".join(head), l)
    return main, flat, em


def read(main, files, root):
    f = {root + k: v for k, v in files.items()}
    f[root + "main.tex"] = main
    with tree.scratch(f) as d:
        return tree.read("%s/%smain.tex" % (d, root))


def run(c):
    one, flat, _ = build(c, False)
    many, _, em = build(c, True)
    root = ["", "paper/", "a b/c/"][c["root"]]
    src = many + "".join("\n=== %s\n%s" % x for x in em.files.items())
    got = read(many, em.files, root)
    body = canon.canon(got["tokens"])
    if len(body) == 1 and isinstance(body[0], dict) and body[0]["type"] == "document":
        body = body[0]["content"]
    canon.require_canon(body, doc.assemble(flat), src)
    ref = read(one, {}, root)
    require_eq(got["color_map"], ref["color_map"], "colours", src)
    canon.require_canon(canon.canon(got["tokens"]), canon.canon(ref["tokens"]), src)
    if em.files:
        return ["%d files" % min(len(em.files), 4), "depth %d" % em.deep] + ["definitions in files"] * any(c["dp"][i]["on"] for i in range(min(len(c["dp"]), (len(c["defs"]) + 1) // 2)))


s_dec = st.fixed_dictionaries({"on": st.sampled_from([True, True, True, False]), "at": st.integers(0, 3), "len": st.integers(0, 3), "name": ix(NAMES), "cmd": ix(CMDS), "tail": ix(TAIL), "head": ix(HEAD), "inl": st.booleans(), "miss": st.sampled_from([False, False, True])})
s_t = lst(mix(doc.s_text, doc.s_math, doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=lst(doc.s_text, 1, 1)), doc.s_cite), 1, 2)
f_ = dict(name=ix(NAMES), cmd=ix(CMDS), tail=st.integers(0, 1), head=st.just(0), x=s_t)
again = doc.fd("again", n=st.integers(2, 3), s=st.integers(0, 3), **f_)
chain = doc.fd("chain", n=st.integers(1, 12), **f_)
use = doc.fd("use", i=st.integers(0, 9))

S = case(doc=doc.s_doc(2, 6, extra=[use, use, again, chain, doc.fd("redef", i=st.integers(0, 9), n=st.integers(0, 1))]), dec=lst(s_dec, 1, 8), defs=st.lists(st.integers(0, 7), max_size=5), dp=st.lists(s_dec, max_size=2), root=st.integers(0, 2))
PROPERTY = Property("C13", [
    Facet("split", S, run, quick=2000, thorough=60000, shards=8, rule="documents split over files at random places and depths, compared with the model and the document in one file"),
    big(S, run, quick=250),
], "a case is non-trivial when at least one part of the document is in another file")
