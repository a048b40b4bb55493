from hypothesis import strategies as st
from mix import mix
import canon
import doc
from gen import case, lst, pre
from grow import big
from pbt import Facet, Property

SHORT = ["", "[sh]", "[short sub title]", " [a $x$ \\emph{b}]", "[{[c]} section*]", "*?"]


class Em(doc.Emitter):
    nsec = 0

    def b_sec(self, nd):
        l, c = super().b_sec(nd)
        s = SHORT[nd.get("s", 0) % 5]
        self.nsec += 1
        i = l.index("{")
        return l[:i] + s + [""," ", "\n"][nd.get("sp", 0) % 3] + l[i:], c

    def b_parag(self, nd):
        l, c = super().b_parag(nd)
        i = l.index("{")
        lab = ""
        if nd.get("lab"):
            lb = self.label("pg")
            c[0]["labels"] = [lb]
            lab = "\\label{%s}" % lb
        self.nsec += 1
        return l[:i] + (["*", " *", "*", "* "][nd.get("s", 0) % 4] if nd.get("star") else "") + SHORT[nd.get("s", 0) % 5] + l[i:] + lab, c

    def b_short(self, nd):
        return self.inl(nd["x"])

    def b_incl(self, nd):
        """a heading of the class shorthand: text right behind the heading on the same line"""
        l, c = self.b_sec(nd)
        t = self.text(2)
        return l + " " + t, c + self.w(t, [])


title = mix(lst(doc.s_text, 1, 1), doc.s_title)
sec = doc.fd("sec", l=st.sampled_from([0, 1, 1, 1, 2, 2, 2, 3, 3, 4]), star=st.sampled_from([False, False, False, True]), chapter=st.sampled_from([False, False, True]),
             x=title, lab=st.integers(0, 2), s=st.integers(0, 4), sp=st.sampled_from([0, 0, 1, 2]))
sec2 = doc.fd("incl", l=st.integers(1, 4), star=st.booleans(), x=title, lab=st.integers(0, 1), s=st.integers(0, 4))
parag = doc.fd("parag", l=st.integers(1, 2), star=st.booleans(), x=title, lab=st.booleans(), s=st.integers(0, 4))
short = doc.fd("short", x=lst(doc.s_text, 1, 1))
h = mix(sec, sec, sec, sec2, parag)
item = mix(h, h, h, short)
rich = mix(h, h, doc.s_block(1))
appendix = st.integers(-1, 6)


def run(c):
    em = Em()
    nodes = c["doc"]
    k = c["app"]
    env = None
    if 0 <= k <= len(nodes):
        env = c["env"]
        l1, f1 = em.blks(nodes[:k])
        l2, f2 = em.blks(nodes[k:])
        if env:
            src = "%s\n\n\\begin{%s}\n%s\n\\end{%s}" % (l1, env, l2, env)
        elif c["bib"]:  # a bibliography right before the appendix: outside of all sections
            w = em.word()
            bib = {"type": "bibliography", "content": [{"type": "bibitem", "content": em.w(w, []), "format": "bibitem", "cite_key": "kk", "fields": {}}]}
            f1.append({"type": "section", "level": -1, "title": [], "content": [], "_num": False, "_bib": bib})
            src = "%s\n\n\\begin{thebibliography}{9}\n\\bibitem{kk} %s\n\\end{thebibliography}\n\n\\appendix\n%s" % (l1, w, l2)
        else:
            src = "%s\n\n\\appendix\n%s" % (l1, l2)
        flat = f1 + [{"type": "appendix", "content": []}] + f2
    else:
        src, flat = em.blks(nodes)
    if c["wrap"]:
        src = "\\documentclass{book}\n\\begin{document}\n%s\n\\end{document}" % src
    got = canon.canon(canon.process(src, c["pre"] or c["wrap"]))
    if c["wrap"] and len(got) == 1 and isinstance(got[0], dict) and got[0]["type"] == "document":
        got = got[0]["content"]
    canon.require_canon(got, [t["_bib"] if isinstance(t, dict) and "_bib" in t else t for t in doc.assemble(flat)], src)
    if em.nsec > 1:
        return sorted(em.seen) + (["appendix " + str(env)] if 0 <= k <= len(nodes) else []) + ["%d headings" % min(em.nsec, 9)]


kw = dict(app=st.sampled_from([-1, -1, 0, 1, 2, 3, 4]), env=st.sampled_from([None, None, "appendices", "appendix"]), pre=pre, wrap=st.booleans(), bib=st.sampled_from([False, False, True]))
PROPERTY = Property("C06", [
    Facet("headings", case(doc=lst(item, 4, 14), **kw), run, quick=2200, thorough=60000, shards=8,
          rule="4 to 14 headings of all levels with text between, starred, with short titles and labels, before and inside an appendix"),
    Facet("content", case(doc=lst(rich, 3, 8), **kw), run, quick=1000, thorough=30000, shards=8, rule="headings around all kinds of blocks"),
    big(case(doc=lst(item, 3, 8), **kw), run),
    big(case(doc=lst(rich, 3, 6), **kw), run, quick=150, name="bigcontent"),
], rule="a case is non-trivial when it has two headings")
