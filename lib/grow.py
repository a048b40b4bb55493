"""Growing a case: the same tree with some of its lists repeated, nodes nested in themselves,
tables widened and counts raised, so that limits on sizes show.  Words, keys and labels are
drawn while a tree is rendered, so copies differ in all of them."""
import copy

from hypothesis import strategies as st
from gen import lst
from pbt import Facet

NEST = {"list", "ls", "env", "thm", "sty", "decl", "col", "grp", "fl", "cont", "wrap", "use"}
COUNT = {"t": 30, "cite": 15, "cref": 15}
ONE_ROW = {"equation", "dmath", "multline", "$$", "\\["}
LIMIT = 260  # nodes


def size(v):
    if isinstance(v, dict):
        return 1 + sum(size(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return sum(size(x) if isinstance(x, (dict, list, tuple)) else 0.3 for x in v) if v else 1
    return 0


def is_tree(x):
    return isinstance(x, dict) or isinstance(x, (list, tuple)) and len(x) > 0 and all(is_tree(y) for y in x)


def sites(v, out, path=()):
    """the places of a tree that can be grown"""
    if isinstance(v, dict):
        rows = v.get("rows")
        if isinstance(rows, list) and rows and all(isinstance(r, (list, dict)) for r in rows) and v.get("e") not in ONE_ROW:
            out.append(("list", rows))
            if all(isinstance(r, list) or "cells" in r for r in rows):
                out.append(("cols", v))
        if v.get("k") in NEST and not v.get("_no"):
            out.append(("nest", v))
        if v.get("k") in COUNT and isinstance(v.get("n"), int):
            out.append(("count", v))
        for k, x in v.items():
            if k != "rows":
                if isinstance(x, list) and x and k not in ("how", "d") and (k == "a" or all(is_tree(y) for y in x)):
                    out.append(("list", x))
                sites(x, out)
            else:
                for y in x if isinstance(x, list) else ():
                    sites(y, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            sites(x, out)
    return out


def body(v):
    """the list of nodes a node may hold itself in"""
    if isinstance(v.get("items"), list) and v["items"]:
        it = v["items"][-1]
        return it if isinstance(it, list) else it.get("x")
    return v["body"] if isinstance(v.get("body"), list) else v.get("x")


INLINE = {"sty", "decl", "col", "grp"}
MAX_INLINE = 5  # braces in titles and the like: the code reads up to six levels in places


def depth(v):
    if isinstance(v, dict):
        return (v.get("k") in INLINE) + max([0] + [depth(x) for x in v.values()])
    if isinstance(v, (list, tuple)):
        return max([0] + [depth(x) for x in v])
    return 0


def grow(tree, ops):
    tree = copy.deepcopy(tree)
    done = []
    for i, n in ops:
        ss = sites({"_": tree}, [])
        if not ss:
            break
        kind, x = ss[i % len(ss)]
        room = LIMIT - size(tree)
        if kind == "list":
            k = min(n, max(1, int(room / max(1, size(x)))), 60)
            x[:] = [copy.deepcopy(y) for _ in range(k) for y in x]
        elif kind == "cols":
            k = min(n, max(1, int(room / max(1, size(x["rows"])))), 12)
            for r in x["rows"]:
                c = r if isinstance(r, list) else r["cells"]
                c[:] = [copy.deepcopy(y) for _ in range(k) for y in c]
        elif kind == "count":
            x["n"] = min(n, COUNT[x["k"]])
        elif kind == "nest":
            if not isinstance(body(x), list) or not all(isinstance(y, dict) and "k" in y for y in body(x)):
                continue
            one = copy.deepcopy(x)
            if x["k"] in INLINE:
                n = min(n, MAX_INLINE - depth(tree) + 1)
            k = min(n, max(1, int(room / max(1, size(one)))), 7)
            cur = x
            for _ in range(k - 1):
                new = copy.deepcopy(one)
                body(cur).append(new)
                cur = new
        done.append(kind)
    return tree, done


ops = lst(st.tuples(st.integers(0, 200), st.sampled_from([2, 3, 5, 8, 12, 20, 50])).map(list), 1, 3)


def big(strategy, run, key="doc", quick=300, thorough=6000, shards=8, name="big"):
    """the facet of grown cases"""
    def go(c):
        base = dict(c["base"])
        if key:
            base[key], done = grow(base[key], c["grow"])
        else:
            base, done = grow(base, c["grow"])
        labels = run(base)
        if labels and done:
            return list(labels) + ["grown " + d for d in done]
    return Facet(name, st.fixed_dictionaries({"base": strategy, "grow": ops}), go, quick=quick, thorough=thorough, shards=shards,
                 rule="cases of the other facets grown: lists repeated up to 60 times, nodes nested in themselves up to 7 deep, tables of up to 48 columns, long citations and texts; non-trivial as before, and grown")


def grown(prop, quick=150, thorough=4000, only=None):
    """add a facet of grown cases for facets of a property"""
    prop.facets += [big(f.strategy, f.run, None, quick, thorough, f.shards, "big-" + f.name) for f in list(prop.facets) if not only or f.name in only]
    return prop
