"""Generators and helpers shared by property modules."""
import canon
import doc
from hypothesis import strategies as st
from mix import mix

pre = st.booleans()


def model(em, nodes, pre, prelude="", post=None):
    """render nodes with emitter em, compare the library's output with the model"""
    l, flat = em.blks(nodes)
    want = doc.assemble(flat)
    src = prelude + l
    canon.require_canon(canon.canon(canon.process(src, pre)), want, src)
    return src


def case(**kw):
    return st.fixed_dictionaries(kw)


def lst(s, mn=1, mx=4):
    return st.lists(s, min_size=mn, max_size=mx)


def ix(seq):
    return st.integers(0, len(seq) - 1)


def shift(seqs):
    return mix(*seqs)
