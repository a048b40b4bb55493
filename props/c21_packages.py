import canon
import contextlib
import doc
import tree
from gen import case, ix, lst
from hypothesis import strategies as st
from mix import mix
from grow import grown
from pbt import Facet, Property, require, require_eq

FORMS = 12
NOISE = ["", "% comment \\newcommand{\\no}{NO}", "\\ProvidesPackage{x}[2020/01/01 v1.0 A package]", "\\NeedsTeXFormat{LaTeX2e}", "stray text here", "\\typeout{stray}", "\\PackageWarning{x}{stray words}", "\\setlength{\\parindent}{0pt}",
         "\\RequirePackage{nothere}", "\\usepackage[opt]{graphicx,amsmath}", "\\pagestyle{empty}", "\\DeclareOption{stray}{\\typeout{y}}", "\\DeclareOption*{\\PassOptionsToPackage{\\CurrentOption}{article}}\n\\ProcessOptions\\relax", "\\relax", "\\input{nothere.tex}", "\\iffalse\n\\newcommand{\\nope}{NO}\n\\fi",
         "\\makeatletter", "\\RequirePackage{amssymb}[2013/01/14]", "{\\small stray}", "\\hypersetup{colorlinks=true}"]
END = ["", "\n", "\n\\endinput\n", "\n% end"]
DIRS = ["", "", "styles/", "a b/"]


def words(i):
    return "w" + doc._letters(i)


class Build:
    """the definitions in the order in which they are read: in files and written out"""

    def __init__(self, c, empty):
        self.c, self.empty = c, empty
        self.files, self.inline, self.kinds = {}, [], set()
        self.macros = []          # (name, kind, word, mandatory args, optional?)
        self.n = 0

    def new(self, i):
        """-> source of a definition, the same with what the default keeps of it"""
        self.n += 1
        w = words(self.n)
        n = "qz" + doc._letters(self.n)
        f = i["f"] % FORMS
        e = self.empty
        old = [m for m in self.macros if m[1] == "mac" and m[5]]
        if f == 11 and old:
            # another meaning for a macro of a package
            m = old[i["o"] % len(old)]
            body = w + " \\textit{r}" + "".join(" #%d" % (j + 1) for j in range(m[3]))
            a = "[%d]" % m[3] if m[3] else ""
            self.macros[self.macros.index(m)] = m[:2] + (w,) + m[3:4] + (False,) + m[5:]
            d = ["\\renewcommand{\\%s}%s{%s}", "\\renewcommand*\\%s%s{%s}"][i["o"] % 2]
            return d % (m[0], a, body), d % (m[0], a, "" if e else body)
        if f in (0, 1, 2, 3, 4, 11):
            a = i["a"] % 3
            opt = bool(a and i["opt"] and f in (0, 1, 3))
            body = w + ["", " \\textbf{b}", " \\emph{e}~f"][i["o"] % 3] + "".join(" #%d" % (j + 1) for j in range(a))
            br = ("[%d]" % a if a else "") + ("[dflt]" if opt else "")
            d = {0: "\\newcommand{\\%s}%s{%s}", 1: "\\newcommand*\\%s%s{%s}", 2: "\\def\\%s%s{%s}", 3: "\\providecommand{\\%s}%s{%s}", 4: "\\long\\def\\%s%s{%s}", 11: "\\gdef\\%s%s{%s}"}[f]
            if f in (2, 4, 11):
                br = "".join("#%d" % (j + 1) for j in range(a))
            self.macros.append((n, "mac", w, a - opt, opt, i["w"] == 0))
            return d % (n, br, body), d % (n, br, "" if e else body)
        if f == 5:
            self.macros.append((n, "style", w, 1, False, False))
            s = "\\let\\%s%s\\textbf" % (n, "=" if i["opt"] else "")
            return s, "\\def\\%s{}" % n if e else s
        if f == 6:
            self.macros.append((n, "op", w, 0, False, False))
            s = "\\DeclareMathOperator{\\%s}{%s}"
            return s % (n, w), s % (n, "" if e else w)
        if f == 7:
            self.macros.append((n, "thm", w, 0, False, False))
            s = ["\\newtheorem{%s}{%s}", "\\newtheorem{%s}{%s}[section]", "\\newtheorem*{%s}{%s}"][i["a"] % 3] % (n, ["Theorem", "Lemma", "Thing " + w][i["o"] % 3])
            return s, s
        if f == 8:
            self.macros.append((n, "if", w, 0, False, False))
            s = "\\newif\\if%s\n\\%s%s" % (n, n, ["true", "false"][i["o"] % 2])
            return s, s
        if f == 9:
            self.macros.append((n, "col", w, 0, False, False))
            s = "\\definecolor{%s}{%s}" % (n, ["rgb}{1,0,0", "HTML}{00FF00"][i["o"] % 2])
            return s, s
        sw = [m for m in self.macros if m[1] == "if"]
        if f == 10 and sw:
            s = "\\%s%s" % (sw[i["o"] % len(sw)][0], ["true", "false"][i["a"] % 2])
            return s, s
        return "", ""

    def wrap(self, i, s):
        """something around a definition that keeps it"""
        k = i["w"] % 11
        if k == 9:
            self.files.setdefault("exists.cfg", "% settings\n")
        if k == 10:
            self.files.setdefault(self.here + "near.cfg", "% settings\n")
        if not s or k == 0:
            return s
        return ["", "\\AtBeginDocument{%s}", "\\iftrue %s\\fi", "\\iffalse\\newcommand{\\nope}{NO}\\else\n%s\n\\fi", "\\IfFileExists{nothere.xyz}{\\newcommand{\\nope}{NO}}{%s}", "\\@ifundefined{nothere}{%s}{}", "\\makeatletter\n%s\n\\makeatother", "%s %% note",
                "\\ifnum 1=1 %s\\fi", "\\IfFileExists{exists.cfg}{%s}{\\newcommand{\\nope}{NO}}", "\\IfFileExists{near.cfg}{%s}{\\newcommand{\\nope}{NO}}"][k] % s

    def body(self, name, items, depth):
        """the text of one file; writes the files it loads"""
        out = []
        for i in items:
            k = i["k"]
            if k == "noise":
                out.append(NOISE[i["i"] % len(NOISE)])
            elif k == "load":
                out.append(self.load(i, depth))
            else:
                s, d = self.new(i)
                if s and i["f"] in (8, 10) and i["w"] in (1,):
                    out.append(s)
                else:
                    out.append(self.wrap(i, s))
                if d:
                    self.inline.append(d)
                    self.kinds.add("%d" % i["f"] if not i["w"] else "wrapped")
        return "\n".join(out)

    def load(self, i, depth):
        """a command that loads new packages or a file"""
        cmds = []
        names = []
        folder = "" if depth else DIRS[i["dir"] % len(DIRS)]
        kind = i["cmd"] % (7 if depth else 5)
        for j, sub in enumerate(i["subs"][:2]):
            n = len(self.files)
            ext = ".tex" if kind in (5, 6) else ".sty"
            here = self.here if depth else ""
            if depth and i["dir"] > 1 and kind < 5:
                folder, here = DIRS[i["dir"]], ""  # by its path from the document
            stem = ["pk%d" % n, "my-style%d" % n, "p.q%d" % n, "common"][i["nm"] % 4]
            if here + folder + stem + ext in self.files:
                stem = "pk%d" % n
            base = folder + stem
            path = here + base
            self.files[path + ext] = None
            save = getattr(self, "here", "")
            self.here = path[:path.rindex("/") + 1] if "/" in path else ""
            text = self.body(base, sub, depth + 1)
            self.here = save
            self.files[path + ext] = text + END[i["end"] % len(END)]
            names.append(base)
            if kind in (2, 3, 4, 5, 6):
                break
        if not names:
            return ""
        self.kinds.add("depth %d" % (depth + 1))
        self.loaded.append(names)
        full = ["styles/" + n if False else n for n in names]
        return ["\\usepackage{%s}" % ",".join(full), "\\usepackage[a,b=c]{%s}" % ", ".join(full), "\\RequirePackage{%s}" % full[0], "\\usepackage{%s}[2020/01/01]" % full[0], "\\RequirePackageWithOptions{%s}" % full[0], "\\input{%s}" % full[0], "\\input{%s.tex}" % full[0]][kind]

    def build(self):
        c = self.c
        self.loaded, self.here = [], ""
        cls = "article"
        if c["cls"]:
            cls = "mycls"
            text = []
            if c["base"]:
                t = self.body("base", c["base"], 1)
                self.files["base.cls"] = "\\ProvidesClass{base}\n" + t
                text.append(["\\LoadClass{base}", "\\LoadClass[11pt]{base}", "\\LoadClassWithOptions{base}", "\\LoadClass{base}[2020/02/02]"][c["lc"] % 4])
                self.kinds.add("base class")
            text.append(self.body("mycls", c["cls"], 1))
            self.files["mycls.cls"] = "\n".join(text) + "\n"
            self.kinds.add("class")
        head = []
        for i in c["pre"]:
            if i["k"] == "load":
                self.here = ""
                head.append(("\n", self.load(i, 0), len(self.inline)))
            elif i["k"] == "own":
                # the document itself defines a macro of a package anew
                old = [m for m in self.macros if m[1] == "mac" and m[5]]
                self.n += 1
                if old:
                    m = old[i["o"] % len(old)]
                    w = words(self.n)
                    self.macros[self.macros.index(m)] = m[:2] + (w,) + m[3:4] + (False, False)
                    s = "\\renewcommand{\\%s}%s{%s}" % (m[0], "[%d]" % m[3] if m[3] else "", w + "".join(" #%d" % (j + 1) for j in range(m[3])))
                    self.inline.append(s)
                    head.append(("\n", s, 0))
                    self.kinds.add("redefined in the document")
            elif i["k"] == "again" and self.loaded:
                head.append(("\n", "\\usepackage{%s}" % self.loaded[i["o"] % len(self.loaded)][0], 0))
        pre = "\n".join(h[1] for h in head)
        out = []
        for j, u in enumerate(c["uses"]):
            if not self.macros:
                break
            out.append(self.use(u, 100 + j))
        body = "\n\n".join(out)
        doc_ = "\\documentclass{%s}\n%s\n\\begin{document}\nStart here.\n\n%s\n\nEnd here.\n\\end{document}\n"
        return doc_ % (cls, pre, body), doc_ % ("article", "\n".join(self.inline), body)

    def use(self, u, j):
        n, kind, w, a, opt, _ = self.macros[u["m"] % len(self.macros)]
        x = words(j)
        if kind == "thm":
            return "\\begin{%s}%s\n%s holds.\n\\end{%s}" % (n, "[Note]" if u["o"] else "", x, n)
        if kind == "if":
            return "%s \\if%s yes%s \\else no%s \\fi after" % (x, n, x, x)
        if kind == "col":
            return "before \\textcolor{%s}{%s} after" % (n, x)
        if kind == "op":
            return "so $a \\%s b$ %s" % (n, x)
        call = "\\" + n + ("[opt%s]" % x if opt and u["o"] else "") + "".join("{%s%d}" % (x, k) for k in range(a))
        if not a:
            call += "{}"
        if kind == "style":
            return "before %s after" % call
        return ["before %s after", "\\section{Title %s end}\ntext", "\\begin{itemize}\\item one %s \\item two\\end{itemize}", "\\textbf{bold %s} and \\footnote{note %s}" % ("%s", "x"), "\\begin{tabular}{ll} a & %s \\\\ c & d \\end{tabular}", "In $x_1 + \\text{%s}$ math", "\\newcommand{\\own%s}[1]{#1 %s}\n\\own%s{own}" % (x, "%s", x)][u["f"] % 7] % call


@contextlib.contextmanager
def keep(on):
    from latex2json.parser.handlers.command_manager import CommandManager
    old = CommandManager.ignore_sty_commands
    CommandManager.ignore_sty_commands = not on
    try:
        yield
    finally:
        CommandManager.ignore_sty_commands = old


def read(main, files, root):
    f = {root + k: v for k, v in files.items()}
    f[root + "main.tex"] = main
    with tree.scratch(f) as d:
        return tree.read("%s/%smain.tex" % (d, root))


def run(c, kept):
    b = Build(c, not kept)
    main, one = b.build()
    root = ["", "paper/"][c["root"]]
    src = main + "".join("\n=== %s\n%s" % x for x in b.files.items()) + "\n=== written out:\n" + one
    with keep(kept):
        got = read(main, b.files, root)
        ref = read(one, {}, root)
    canon.require_canon(canon.canon(got["tokens"]), canon.canon(ref["tokens"]), src)
    require_eq(got["color_map"], ref["color_map"], "colours", src)
    text = canon.json.dumps(got["tokens"]) if hasattr(canon, "json") else str(got["tokens"])
    for s in ("stray", "NO", "nope", "2020"):
        require(s not in text, "%r of a package shows in the output of\n%s" % (s, src))
    if b.inline and b.files and c["uses"]:
        return sorted(b.kinds)


s_def = doc.fd("def", f=st.integers(0, FORMS - 1), a=st.integers(0, 2), o=st.integers(0, 5), opt=st.booleans(), w=st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
s_noise = doc.fd("noise", i=ix(NOISE))


def s_load(sub):
    return doc.fd("load", subs=st.lists(sub, min_size=1, max_size=2), cmd=st.integers(0, 6), dir=ix(DIRS), nm=st.integers(0, 3), end=ix(END))


leaf = lst(mix(s_def, s_def, s_noise), 1, 4)
mid = lst(mix(s_def, s_def, s_noise, s_load(leaf)), 1, 4)
top = lst(mix(s_def, s_def, s_noise, s_load(mid)), 1, 4)
item = mix(s_load(top), s_load(top), doc.fd("own", o=st.integers(0, 5)), doc.fd("again", o=st.integers(0, 5)))
S = case(pre=lst(item, 1, 4), cls=mix(st.just([]), top), base=mix(st.just([]), leaf), lc=st.integers(0, 3), root=st.integers(0, 1),
         uses=lst(doc.fd("u", m=st.integers(0, 11), o=st.booleans(), f=st.integers(0, 6)), 1, 6))

PROPERTY = Property("C21", [
    Facet("default", S, lambda c: run(c, False), quick=700, thorough=40000, shards=8,
          rule="documents with trees of local packages, classes and files they read, as processed by default, against the document holding the definitions itself (without the bodies of the macros)"),
    Facet("kept", S, lambda c: run(c, True), quick=700, thorough=40000, shards=8,
          rule="the same with macros of packages kept (ignore_sty_commands off), against the document holding the definitions itself"),
], "a case is non-trivial when a package or class file holds a definition and the document uses one",
    assumptions=["environments that packages define stay unknown environments", "options given to packages are not evaluated"])
grown(PROPERTY, 150)
