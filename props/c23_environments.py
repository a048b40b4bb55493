import canon
import doc
from gen import case, ix, lst, model, pre
from grow import big
from hypothesis import strategies as st
from mix import mix
from pbt import Facet, Property, Violation

# ---------------------------------------------------------------- environments
ENVS = ["bxa", "bxb", "bxab", "My-env", "bx*", "flushright", "exa@b", "Éta"]
# (begin, end, what the body has to be)
FRAMES = [
    ("{w}", "{v}", "any"), ("", "", "any"), ("{w}", "", "any"), ("", "{v}", "any"),
    ("\\par\\medskip\\noindent\\textbf{{{w}}} ", "\\par", "any"),
    ("\\begin{{center}}{w}", "{v}\\end{{center}}", "any"),
    ("\\begin{{quotation}} {w}", "\\end{{quotation}}", "any"),
    ("\\begin{{itemize}} \\item {w}", "\\item {v} \\end{{itemize}}", "any"),
    ("\\begin{{enumerate}}[label=(\\alph*)]", "\\end{{enumerate}}", "items"),
    ("\\begin{{list}}{{}}{{\\leftmargin=1cm}} \\item[{w}]", "\\end{{list}}", "any"),
    ("\\begin{{lemma}}[{w}]", "\\end{{lemma}} {v}", "any"),
    ("\\begin{{figure}}[t]\\centering", "\\caption{{{v}}}\\end{{figure}}", "any"),
    ("\\begin{{minipage}}{{.5\\textwidth}} {w}", "{v}\\end{{minipage}}", "any"),
    ("\\begin{{equation}}", "\\end{{equation}}", "math"),
    ("\\begin{{align*}}", "\\end{{align*}} {v}", "math"),
    ("\\[", "\\]", "math"),
    ("\\small {w}", "", "any"), ("\\bfseries\\itshape", "", "words"),
    ("\\section*{{{w}}}", "", "words"), ("\\mymac{{{w}}} \\other", "\\mymac{{x}}", "any"),
    ("\\begin{{tabular}}{{ll}}", "\\end{{tabular}}", "rows"),
    ("{w} 50\\% \\{{x\\}} $x_{{1}}$ \\cite{{kk}}", "\\footnote{{{v}}}", "any"),
    ("{w} % comment and \\begin{{x}}\n more", "{v}%\n", "any"),
    ("\\begin{{theorem}}\\label{{{w}}}", "\\end{{theorem}}", "any"),
]
SEPS = ["\n", "\n\n", " ", "\n%\n"]


class Build:
    def __init__(self, c):
        self.em = doc.Emitter()
        self.defs = {}
        self.kinds = set()
        self.deep = 0
        self.c = c

    def word(self):
        return self.em.word()

    def closure(self, x):
        s = self.defs[x]["sub"]
        return {x} | (self.closure(s) if s else set())

    def define(self, i):
        """-> source of the definition"""
        name = ENVS[i["n"] % len(ENVS)]
        n = i["a"]
        b, e, kind = FRAMES[i["fr"] % len(FRAMES)]
        w, v = self.word(), self.word()
        opt = None
        if n and i["opt"]:
            opt = ["dflt" + w, "", "a, b=c", "What %s?" % w, "(%s, b)." % w, "\\emph{%s}: $x$;" % w, "{a [%s], b]}" % w][i["o"] % 7]
        b = b.format(w=w, v=v)
        e = e.format(w=w, v=v)
        math = kind in ("math", "rows", "items")
        if n and not math:
            b += "" if b else w  # what follows \\begin{..} directly is not to look like its argument
            b += "".join([" #%d", " \\emph{#%d}", " (#%d)", " \\textbf{x #%d}"][(i["o"] + j) % 4] % (j + 1) for j in range(n))
            if i["o"] % 2:
                e = "#%d " % n + e if not e.startswith("\\end") and "\\caption" not in e else e
        sub = None
        low = [x for x in self.defs if self.defs[x]["kind"] == "any" and name not in self.closure(x)]
        if i["sub"] is not None and low and kind == "any":
            # the definition uses another environment
            sub = low[i["sub"] % len(low)]
            d = self.defs[sub]
            args = "".join("{s%d}" % j for j in range(d["n"] - (d["opt"] is not None)))
            b += " \\begin{%s}%s " % (sub, args)
            e = " \\end{%s} " % sub + e
            self.kinds.add("nested definition")
        cmd = "\\renewenvironment" if name in self.defs or name == "flushright" else "\\newenvironment"
        cmd += ["", "*", " ", ""][i["f"] % 4]
        br = ("[%d]" % n if n else "") + ("[%s]" % opt if opt is not None else "")
        if i["f"] == 3 and n:
            br = " " + br.replace("][", "] [") + " "
        src = "%s{%s}%s%s{%s}%s{%s}" % (cmd, name, br, ["", "\n  ", " ", "%\n"][i["sp"] % 4], b, ["", "\n  ", " ", "%\n"][i["sp"] % 4], e)
        if name in self.defs:
            self.kinds.add("redefined")
        self.defs[name] = {"b": b, "e": e, "n": n, "opt": opt, "kind": kind, "sub": sub}
        if opt is not None:
            self.kinds.add("optional argument")
        return src

    def arg(self, i):
        w = self.word()
        return ["%s", "a %s b", "\\textbf{%s}", "$x_{1}$ %s", "{\\it %s}", "%s \\cite{k}", "[%s]", "\\begin{flushleft}%s\\end{flushleft}", "50\\%% %s"][i % 9] % w

    def use(self, i, depth=0):
        """-> (source, the same with the environment written out)"""
        name = ENVS[i["n"] % len(ENVS)]
        if name not in self.defs:
            if not self.defs:
                return "none", "none"
            name = sorted(self.defs)[i["n"] % len(self.defs)]
        d = self.defs[name]
        self.deep = max(self.deep, depth + 1)
        args, out = [], ""
        if d["opt"] is not None:
            args.append(d["opt"])
            if i["opt"]:
                args[0] = "opt" + self.word()
                if i["args"] % 5 == 1:
                    args[0] = ["[%s]", "%s] b", "(%s [c])"][i["args"] % 3] % args[0]
                    self.kinds.add("brackets in an optional argument")
                out += ["", " ", ""][i["sp"] % 3] + ("[{%s}]" if "]" in args[0] else "[%s]") % args[0]
                self.kinds.add("optional argument given")
        while len(args) < d["n"]:
            a = self.arg(i["args"] + len(args)) if d["kind"] not in ("math", "rows", "items") else "a"
            args.append(a)
            out += ["", "", " "][i["sp"] % 3] + "{%s}" % a
        if d["n"]:
            self.kinds.add("%d arguments" % d["n"])
        if d["kind"] == "math":
            x = y = self.em.math([i["args"], 3])
        elif d["kind"] == "rows":
            x = y = "%s & %s \\\\ %s & \\textbf{%s}" % tuple(self.word() for _ in range(4))
        elif d["kind"] == "items":
            x = y = "\\item %s \\item[z] %s" % (self.word(), self.word())
        elif d["kind"] == "words":
            x = y = self.word() + " " + self.word()
        else:
            x, y = self.body(i["body"], depth)
        lead = "" if x.startswith(("[", "{")) else ""
        return "\\begin{%s}%s%s\n%s\n\\end{%s}" % (name, out, lead, x, name), self.write(name, args, "\n" + y + "\n")

    def write(self, name, args, body):
        d = self.defs[name]

        def put(s):
            for k, a in enumerate(args):
                s = s.replace("#%d" % (k + 1), a)
            return s
        b, e = put(d["b"]), put(d["e"])
        if d["sub"]:
            sub = self.defs[d["sub"]]
            i = b.rindex(" \\begin{%s}" % d["sub"])
            j = e.index(" \\end{%s} " % d["sub"])
            sargs = [] if sub["opt"] is None else [sub["opt"]]
            # the arguments written in the definition go to what the environment takes now
            given = ["s%d" % k for k in range(b[i:].count("{s"))]
            while given and len(sargs) < sub["n"]:
                sargs.append(given.pop(0))
            if given or len(sargs) < sub["n"] or sub["kind"] != "any":
                raise Changed()
            inner = self.write(d["sub"], sargs, body + e[:j])
            return "\\begin{%s}\n%s\n%s\n%s\n\\end{%s}" % (name, b[:i], inner, e[j + len(" \\end{%s} " % d["sub"]):], name)
        return "\\begin{%s}\n%s\n%s\n%s\n\\end{%s}" % (name, b, body, e, name)

    def body(self, nodes, depth):
        xs, ys = [], []
        for nd in nodes:
            if nd["k"] == "use":
                x, y = self.use(nd, depth + 1)
            else:
                x = y = self.em.blks([nd])[0]
            xs.append(x)
            ys.append(y)
        return "\n\n".join(xs), "\n\n".join(ys)


def plain(t):
    """the name of an unknown environment comes without its star"""
    if isinstance(t, list):
        return [plain(x) for x in t]
    if isinstance(t, dict):
        return {k: v.rstrip("*") if k == "name" and isinstance(v, str) else plain(v) for k, v in t.items()}
    return t


class Changed(Exception):
    """the inner environment was redefined with other arguments: no prediction"""


PRELUDE = "\\newcommand{\\mymac}[1]{mm #1} \\newcommand{\\other}{oo}\n"


def run_env(c):
    b = Build(c)
    xs, ys = [], []
    used = False
    try:
        for s in [c["first"], *c["steps"], c["last"]]:
            if s["k"] == "define":
                xs.append(b.define(s))
            elif s["k"] == "use":
                x, y = b.use(s)
                used = used or x != "none"
                xs.append(x)
                ys.append(y)
            else:
                x = b.em.blks([s])[0]
                xs.append(x)
                ys.append(x)
    except Changed:
        return
    if b.deep > 12:
        return  # an environment that holds itself more often is not expanded anymore
    src = PRELUDE + SEPS[c["sep"] % 2].join(xs)
    ref = PRELUDE + "\n\n".join(ys)
    got = plain(canon.canon(canon.process(src, c["pre"])))
    want = plain(canon.canon(canon.process(ref, c["pre"])))
    canon.require_canon(got, want, src + "\n=== written out:\n" + ref)
    if used:
        return sorted(b.kinds) + ["depth %d" % b.deep, "body"]


# ---------------------------------------------------------------- theorems
TITLES = ["Theorem", "lemma", "PROPOSITION", "Corollary", "Conjecture", "Remark", "Proof", "Claim", "Note", "Open Problem", "Main Theorem", "Question", "Hypothesis 2", "Théorème", "Fact"]
NUMBERED = {"theorem", "lemma", "proposition", "corollary", "conjecture", "remark"}
STD = ["theorem", "lemma", "Lemma", "Theorem", "remark", "proof", "definition"]
MATH = NUMBERED | {"proof", "claim", "note"}


class ThmEm(doc.Emitter):
    def __init__(self):
        super().__init__()
        self.thms = []
        self.kinds = set()
        self.used = set()  # a name in use cannot be given a new meaning

    def b_defthm(self, nd):
        n = (["thm", "lem", "Q", "my-thm", "prop"] + STD)[nd["n"] % 12]
        if n not in STD or n in self.used or any(n == x for x, _, _ in self.thms):
            n += doc._letters(len(self.thms))
        if nd["sp"] == 3 and n not in STD:
            n += "*"
            self.kinds.add("name with a star")
        t = TITLES[nd["t"] % len(TITLES)]
        star = nd["star"]
        ti = ["%s", "%s", "{\\bf %s}", "\\textsc{%s}", " %s "][nd["tf"] % 5] % t
        ti = ti[1:-1] if nd["tf"] % 5 == 2 else ti
        cnt = "" if star or nd["cnt"] % 3 else "[%s]" % (self.thms[-1][0] if self.thms else "equation")
        within = "" if star or cnt or nd["cnt"] % 5 != 1 else "[section]"
        sp = ["", "", " ", "\n  "][nd["sp"] % 4]
        self.thms.append((n, t, star))
        return ["", "\\theoremstyle{definition}\n"][nd["sp"] % 2] + "\\newtheorem%s%s{%s}%s%s{%s}%s" % ("*" if star else "", sp, n, sp and " ", cnt, ti, within), []

    def b_thm(self, nd):
        # a known name that the document gives another meaning is used by b_usethm only
        nd = {**nd, "e": "axiom"} if any(nd["e"] == n for n, _, _ in self.thms) else nd
        self.used.add(nd["e"])
        return super().b_thm(nd)

    def b_usethm(self, nd):
        if not self.thms:
            return self.inl([{"k": "t", "n": 1, "f": 0}])
        n, t, star = self.thms[nd["i"] % len(self.thms)]
        math = t.lower() in MATH
        tok = {"type": "math_env" if math else "environment", "name": t}
        opt, lab = "", ""
        if nd.get("title"):
            opt, tok["title"] = self.opt(nd["title"])
            self.kinds.add("title")
        if nd["lab"]:
            lab, l = self.lab("th")
            tok["labels"] = [l]
            self.kinds.add("label")
        self.kinds.add("math" if math else "other")
        if t.lower() in NUMBERED and not star:
            tok["_num"] = True
            self.kinds.add("numbered")
        l, c = self.blks(nd["x"])
        tok["content"] = c
        return "\\begin{%s}%s%s\n%s\n\\end{%s}" % (n, opt, lab, l, n), [tok]


def run_thm(c):
    em = ThmEm()
    model(em, [c["first"], *c["doc"], c["last"]], c["pre"])
    if em.kinds:
        return sorted(em.kinds)


def uses(body):
    return doc.fd("use", n=ix(ENVS), opt=st.booleans(), sp=st.integers(0, 2), args=st.integers(0, 8), body=body)


blk = doc.s_block(1)
leaf = lst(blk, 1, 2)
mid = lst(mix(blk, uses(leaf)), 1, 2)
s_use = uses(lst(mix(blk, blk, uses(mid)), 1, 3))
s_def = doc.fd("define", n=ix(ENVS), a=st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 5, 8, 9]), fr=ix(FRAMES), opt=st.booleans(), o=st.integers(0, 13), sub=mix(st.none(), st.integers(0, 3)), f=st.integers(0, 3), sp=st.integers(0, 3))
s_defthm = doc.fd("defthm", n=st.integers(0, 11), t=ix(TITLES), star=st.booleans(), tf=st.integers(0, 4), cnt=st.integers(0, 5), sp=st.integers(0, 3))
s_usethm = doc.fd("usethm", i=st.integers(0, 9), title=doc.opt(doc.s_title), lab=st.booleans(), x=doc.s_blocks(1, 1, 2))

S_ENV = case(pre=pre, sep=st.integers(0, 1), first=s_def, steps=lst(mix(s_def, s_def, s_use, s_use, blk, doc.s_sec), 1, 6), last=s_use)
S_THM = case(pre=pre, first=s_defthm, doc=lst(mix(s_defthm, s_usethm, s_usethm, blk, doc.s_sec), 0, 6), last=s_usethm)
PROPERTY = Property("C23", [
    Facet("environments", S_ENV, run_env, quick=1500, thorough=60000, shards=8,
          rule="sequences of environment definitions, redefinitions and (nested) uses with arguments and defaults, against the document with each use written out"),
    Facet("theorems", S_THM, run_thm, quick=1200, thorough=40000, shards=8,
          rule="documents that define theorem-like environments in every form and use them among sections, against the model"),
    big(S_ENV, run_env, None, quick=200),
    big(S_THM, run_thm, quick=200, name="bigtheorems"),
], "a case is non-trivial when it uses an environment that it defines",
    assumptions=["an environment that uses itself in its definition keeps its earlier meaning and is checked by C22", "theorem-like environments are not redefined (LaTeX refuses it)"])
