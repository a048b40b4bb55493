"""Scratch directories with documents, read the way a user does."""
import contextlib
import json
import os
import shutil
import tempfile

from pbt import require, sut


@contextlib.contextmanager
def scratch(files=()):
    """a new directory holding the given files {relative path: text or bytes}"""
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        write(d, files)
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(d, files):
    for rel, data in dict(files).items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))


def read(path, reader=None, **kw):
    """process a path with a (new) reader -> JSON data {"tokens": [...], "color_map": {...}}"""
    from latex2json.tex_reader import TexReader
    r = reader or TexReader()
    res = sut("process", r.process, str(path), **kw)
    try:
        s = sut("to_json", r.to_json, res)
        require(isinstance(s, str), "to_json does not give a string")
        return json.loads(s)
    finally:
        res.cleanup()


def listing(d):
    """every file below d with its content"""
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
