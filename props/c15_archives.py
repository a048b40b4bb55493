import gzip
import io
import json
import os
import shutil
import signal
import stat
import tarfile
import tempfile
import traceback
import zipfile

from hypothesis import strategies as st
from gen import case, ix, lst
from pbt import Facet, Property, Violation, require, require_eq, sut

NOBODY = 65534
WARM = []


def confined(fn, c):
    """run fn(case, directory) in a child process of an unprivileged user that owns nothing but a scratch
    directory, since the code under test is what keeps its own effects contained"""
    import latex2json.tex_reader  # noqa: F401  (import with full rights)
    import chardet  # noqa: F401
    if not WARM:
        WARM.append(latex2json.tex_reader.TexReader())  # tables that are made once per process
    top = tempfile.mkdtemp(prefix="verif-")
    try:
        home = os.path.join(top, "a", "b", "c", "d")
        os.makedirs(home)
        for r in (top, os.path.join(top, "a"), os.path.join(top, "a/b"), os.path.join(top, "a/b/c"), home):
            os.chmod(r, 0o755)
            if r != top:
                os.chown(r, NOBODY, NOBODY)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = {}
            try:
                os.close(rd)
                os.setgroups([])
                os.setresgid(NOBODY, NOBODY, NOBODY)
                os.setresuid(NOBODY, NOBODY, NOBODY)
                os.chdir(home)
                signal.alarm(100)
                nul = os.open(os.devnull, os.O_WRONLY)
                os.dup2(nul, 1)
                os.dup2(nul, 2)
                out["tags"] = fn(c, top)
            except Violation as e:
                out["violation"] = str(e)
            except BaseException:
                out["error"] = traceback.format_exc()
            try:
                with os.fdopen(wr, "w") as f:
                    f.write(json.dumps(out))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            s = f.read()
        os.waitpid(pid, 0)
        require(s, "the process that reads the archive died")
        out = json.loads(s)
        if "violation" in out:
            raise Violation(out["violation"])
        if "error" in out:
            raise RuntimeError(out["error"])
        return out["tags"]
    finally:
        shutil.rmtree(top, ignore_errors=True)


def snapshot(top, skip):
    """everything below top except what lies below skip"""
    out = {}
    for root, dirs, names in os.walk(top):
        if root == skip or root.startswith(skip + "/"):
            dirs[:] = []
            continue
        for n in dirs + names:
            p = os.path.join(root, n)
            s = os.lstat(p)
            v = [stat.S_IFMT(s.st_mode), s.st_mode & 0o7777, s.st_uid]
            if stat.S_ISLNK(s.st_mode):
                v.append(os.readlink(p))
            elif stat.S_ISREG(s.st_mode):
                v += [s.st_nlink, s.st_mtime_ns]
                with open(p, "rb") as f:
                    v.append(f.read().decode("latin-1"))
            out[os.path.relpath(p, top)] = v
    return out


# how crafted members are named or linked; {V} a directory outside, {N} a fresh number
EVIL_NAMES = ["../evil{N}", "../../evil{N}.tex", "a/../../evil{N}", "{V}/evil{N}", "{V}/victim", "../../victims/victim", "..", "./../evil{N}", "a/../../../victims/victim", "x/../ok{N}/../../evil{N}", "/../{V}/evil{N}", "../{T}x/evil{N}", "..\\evil{N}", "{V}"]
EVIL_LINKS = [("sym", "{V}"), ("sym", "../../victims"), ("sym", "{V}/victim"), ("sym", "../../victims/victim"), ("hard", "{V}/victim"), ("hard", "../../victims/victim"), ("sym", ".."), ("sym", "a/../../../victims"), ("sym", "/"), ("hard", "../evil"), ("sym", "{T}/../../victims")]
SPECIAL = ["fifo", "chr", "blk", "cont"]


def fill(s, v, n, t="tmpabc"):
    return s.replace("{V}", v).replace("{N}", str(n)).replace("{T}", t)


def tinfo(name, kind=None, target="", mode=0o644, size=0):
    i = tarfile.TarInfo(name)
    i.mode, i.size, i.linkname = mode, size, target
    i.type = {"sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE, "dir": tarfile.DIRTYPE, "fifo": tarfile.FIFOTYPE, "chr": tarfile.CHRTYPE, "blk": tarfile.BLKTYPE, "cont": tarfile.CONTTYPE}.get(kind, tarfile.REGTYPE)
    i.uid = i.gid = 0
    return i


SAFE = ["sub/part{N}.tex", "part{N}.tex", "a b/part{N}.tex", "deep/er/part{N}.tex", "v1..2/part{N}.tex", "part..{N}.tex", "...part{N}.tex", "é/part{N}.tex"]


def archive(c, path, victims):
    """-> words that a reader of the archive has to find"""
    words, members = [], []
    n = 0
    for m in c["m"]:
        n += 1
        if m["k"] == 0:  # a safe member
            words.append("zq%dz" % n)
            name = fill(SAFE[m["i"] % len(SAFE)], "", n)
            members.append(("file", name, words[-1], name))
        elif m["k"] == 1:
            members.append(("evil", fill(EVIL_NAMES[m["i"] % len(EVIL_NAMES)], victims, n), "evil", None))
        elif m["k"] == 2:
            kind, t = EVIL_LINKS[m["i"] % len(EVIL_LINKS)]
            link = "link%d" % n
            members.append((kind, link, fill(t, victims, n), None))
            if m["through"] and c["kind"] != "zip":
                members.append(("evil", link + ["/evil%d", "/victim", ""][m["through"] - 1].replace("%d", str(n)), "evil", None))
        elif m["k"] == 3:
            members.append((SPECIAL[m["i"] % len(SPECIAL)], "special%d" % n, "", None))
        elif m["k"] == 4:  # a link that stays inside
            words.append("zq%dz" % n)
            members.append(("file", "real%d/x.tex" % n, words[-1], None))
            if c["kind"] in ("tar.gz", "tgz"):
                members.append((["sym", "hard"][m["i"] % 2], "in%d.tex" % n, "real%d/x.tex" % n, "in%d.tex" % n))
            else:
                members[-1] = members[-1][:3] + ("real%d/x.tex" % n,)
        else:
            members.append(("dir", ["d%d" % n, "d%d/" % n][m["i"] % 2], "", None))
    main = "\\documentclass{article}\\begin{document}\nmainz\n%s\n\\end{document}\n" % "\n\n".join("\\input{%s}" % x[3] for x in members if x[3])
    if c["main"]:
        members.insert(c["at"] % (len(members) + 1), ("file", ["main.tex", "src/main.tex"][c["main"] - 1 if not words else 0], main, None))
    if c["kind"] == "zip":
        with zipfile.ZipFile(path, "w") as z:
            for kind, name, data, _ in members:
                i = zipfile.ZipInfo(name)
                if kind == "sym":
                    i.external_attr = 0o120777 << 16
                elif kind not in ("file", "evil"):
                    if kind != "dir":
                        continue
                    i.filename = name.rstrip("/") + "/"
                z.writestr(i, data if kind != "dir" else b"")
    else:
        with tarfile.open(path, "w:gz", format=[tarfile.PAX_FORMAT, tarfile.GNU_FORMAT][c["at"] % 2]) as t:
            for kind, name, data, _ in members:
                if kind in ("file", "evil"):
                    t.addfile(tinfo(name, None, mode=[0o644, 0o000, 0o6755][c["at"] % 3], size=len(data.encode())), io.BytesIO(data.encode()))
                else:
                    t.addfile(tinfo(name, kind, data if kind in ("sym", "hard") else "", 0o755))
    return words


def text_of(res):
    from latex2json.tex_reader import TexReader
    return TexReader().to_json(res)


def scene(top):
    home = os.path.join(top, "a/b/c/d")
    tmp = os.path.join(home, "tmp")
    victims = os.path.join(top, "a/b/c/victims")  # ../../victims seen from a temporary folder's parent
    for d in (tmp, victims, os.path.join(home, "victims"), os.path.join(home, "tmpabcx")):
        os.mkdir(d)
    for d in (victims, os.path.join(home, "victims")):
        for n in ("victim", "other.tex"):
            with open(os.path.join(d, n), "w") as f:
                f.write("precious")
    tempfile.tempdir = tmp
    return home, tmp, victims


def left(tmp):
    return sorted(os.listdir(tmp))


def run_crafted(c):
    return confined(crafted, c)


def crafted(c, top):
    from latex2json.tex_reader import TexReader
    home, tmp, victims = scene(top)
    path = os.path.join(home, "x." + c["kind"])
    words = archive(c, path, victims)
    before = snapshot(top, tmp)
    src = "members: %s" % json.dumps(c["m"])
    reader, res, failed = TexReader(), None, None
    try:
        if c["compressed"]:
            res = reader.process_compressed(path, cleanup=c["clean"])
        else:
            res = reader.process(path, cleanup=c["clean"])
    except Exception as e:
        failed = e
    require_eq(snapshot(top, tmp), before, "something outside the temporary folder was changed", src)
    if failed is not None:
        require_eq(left(tmp), [], "temporary folder left behind by a failure", src)
        require(not c["main"], "the archive was not read: %r" % failed, src)
        return ["refused"]
    require(c["main"], "an archive without document did not fail", src)
    got = text_of(res)
    for w in ["mainz"] + words:
        require(w in got, "content of safe member %s is missing" % w, got[:2000], src)
    require("precious" not in got and "evil" not in json.dumps(json.loads(got)["tokens"]), "unsafe member was read", got[:500], src)
    if c["clean"]:
        require_eq(left(tmp), [], "temporary folder left behind", src)
    else:
        require_eq(len(left(tmp)), 1, "number of temporary folders", src)
        d = os.path.join(tmp, left(tmp)[0])
        require_eq(os.path.realpath(str(res.temp_dir)), os.path.realpath(d), "temp_dir", src)
        for root, dirs, names in os.walk(d):
            for n in dirs + names:
                p = os.path.join(root, n)
                s = os.lstat(p)
                require(stat.S_ISREG(s.st_mode) or stat.S_ISDIR(s.st_mode) or stat.S_ISLNK(s.st_mode), "special file extracted: " + n, src)
                require(os.path.realpath(p).startswith(os.path.realpath(d)), "link to the outside extracted: " + n, src)
    res.cleanup()
    require_eq(left(tmp), [], "temporary folder left behind by cleanup()", src)
    res.cleanup()
    require_eq(snapshot(top, tmp), before, "something outside the temporary folder was changed by cleanup()", src)
    bad = [m for m in c["m"] if m["k"] in (1, 2, 3)]
    if bad:
        return [c["kind"]] + sorted({["", "name", "link", "special"][m["k"]] for m in bad}) + ["safe members"] * bool(words)


# ------------------------------------------------------------------ broken archives and histories
def run_history(c):
    return confined(history, c)


def history(c, top):
    from latex2json.tex_reader import TexReader
    home, tmp, victims = scene(top)
    readers = [TexReader(), TexReader()]
    kept, tags = [], []
    before = None
    log = []
    for k, o in enumerate(c["ops"]):
        op = o["op"]
        if op in ("clean", "gone"):
            if not kept:
                continue
            i = o["i"] % len(kept)
            res, d = kept[i]
            if op == "gone":
                shutil.rmtree(d, ignore_errors=True)
            log.append("%s %d" % (op, i))
            sut("cleanup", res.cleanup)
            if o["i"] % 3 == 0:
                sut("cleanup", res.cleanup)
            kept.pop(i)
        else:
            kind = ["zip", "tar.gz", "tgz", "gz", "tex.gz"][o["kind"]]
            path = os.path.join(home, "in%d.%s" % (k, kind))
            word = "zq%dz" % k
            doc = "\\documentclass{article}\\begin{document}%s\\end{document}" % word
            if op == "nomain":
                doc = doc.replace("\\documentclass{article}\\begin{document}", "").replace("\\end{document}", "")
            if op == "void":
                doc = ["\\documentclass{article}\\begin{document}\\end{document}", "\\documentclass{article}", "\\documentclass{article}\n% nothing"][o["i"] % 3]
            if op == "empty":
                doc = None
            if op == "big":
                doc += "%" + os.urandom(30000).hex()
            if kind.endswith("gz") and kind not in ("tar.gz", "tgz"):
                with gzip.open(path, "wb") as f:
                    f.write((doc or "").encode())
            elif kind == "zip":
                with zipfile.ZipFile(path, "w") as z:
                    if doc:
                        z.writestr("main.tex", doc)
            else:
                with tarfile.open(path, "w:gz") as t:
                    if doc:
                        t.addfile(tinfo("main.tex", size=len(doc)), io.BytesIO(doc.encode()))
            with open(path, "rb") as f:
                data = f.read()
            if op == "cut":
                data = data[:len(data) * (o["i"] % 100) // 100]
            elif op == "flip":
                p = o["i"] % len(data)
                data = data[:p] + bytes([data[p] ^ (1 << o["i"] % 8)]) + data[p + 1:]
            elif op == "noise":
                data = os.urandom(o["i"]) if o["i"] % 2 else b"x" * o["i"]
            elif op == "swap":  # content of another kind
                data = b"\\documentclass{article}\\begin{document}plain\\end{document}"
            with open(path, "wb") as f:
                f.write(data)
            before = snapshot(top, tmp)
            r = readers[o["i"] % 2]
            old = None
            if op == "fail":
                old, r.token_builder.build = r.token_builder.build, lambda *a, **k: 1 / 0
            limit = None
            if op == "big":
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                limit = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (20000, limit[1]))
            log.append("%s %s clean=%s via=%s" % (op, kind, o["clean"], o["via"]))
            res = failed = None
            count = len(left(tmp))
            try:
                if o["via"]:
                    res = r.process_compressed(path, cleanup=o["clean"])
                else:
                    res = r.process(path, cleanup=o["clean"])
            except Exception as e:
                failed = e
            finally:
                if limit:
                    resource.setrlimit(resource.RLIMIT_FSIZE, limit)
                if old:
                    del r.token_builder.build
            if op in ("fail", "nomain", "empty", "noise", "swap", "big") and failed is None:
                raise Violation("unusable archive did not fail: %s" % log)
            if op == "void":
                require(failed is None, "archive of an empty document failed: %r" % failed, log)
            if op == "good":
                if failed is not None:
                    raise Violation("good archive failed: %r %s" % (failed, log))
                require(word in text_of(res), "content of the archive is missing", log)
            if op == "cut" and failed is None:
                # only the end of the stream may be missing
                require(word in text_of(res), "truncated archive gave other content", log)
            tags.append(op)
            if failed is not None or o["clean"]:
                require_eq(len(left(tmp)), count, "number of temporary folders after %s" % ("a failure" if failed else "clean-up"), log)
                if res is not None:
                    sut("cleanup", res.cleanup)
            else:
                require_eq(len(left(tmp)), count + 1, "number of temporary folders", log)
                kept.append((res, str(res.temp_dir)))
            require_eq(snapshot(top, tmp), before, "something outside the temporary folder was changed", log)
        require_eq(left(tmp), sorted(os.path.basename(d.rstrip("/")) for _, d in kept), "temporary folders that exist", log)
    for res, d in kept:
        sut("cleanup", res.cleanup)
    require_eq(left(tmp), [], "temporary folders at the end", log)
    if len(tags) > 1:
        return sorted(set(tags))


s_m = st.fixed_dictionaries({"k": st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4, 5]), "i": st.integers(0, 60), "through": st.integers(0, 3)})
s_op = st.fixed_dictionaries({"op": st.sampled_from(["good", "good", "good", "cut", "flip", "noise", "swap", "nomain", "empty", "void", "void", "fail", "big", "clean", "clean", "gone"]), "kind": st.integers(0, 4), "i": st.integers(0, 2000), "clean": st.booleans(), "via": st.booleans()})

PROPERTY = Property("C15", [
    Facet("crafted", case(m=st.lists(s_m, max_size=6), kind=st.sampled_from(["zip", "tar.gz", "tgz"]), main=st.sampled_from([0, 1, 1, 1, 2]), at=st.integers(0, 9), clean=st.booleans(), compressed=st.booleans()),
          run_crafted, quick=1200, thorough=30000, shards=8, rule="archives with unsafe names, links or special files between safe members, read by an unprivileged user in a scratch directory"),
    Facet("history", case(ops=st.lists(s_op, min_size=1, max_size=8)), run_history, quick=600, thorough=20000, shards=8,
          rule="sequences of good, broken and failing archives and clean-ups by two readers, with the number of temporary folders followed"),
], "a case is non-trivial when the archive has an unsafe member, or the history processes at least two archives")
