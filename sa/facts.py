"""Program facts: regenerates the ANTLR output in a scratch directory, runs the clang-based
extractor over every translation unit of /repo's current working tree and merges the results."""
import hashlib, json, os, pickle, subprocess, sys, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "srcfacts")

# client sources that need headers this sandbox does not have (stubs with #error in the build)
CLIENT_UNAVAILABLE_HEADERS = ("CLI11.hpp", "ctpl_stl.h")


class AnalysisBroken(Exception):
    """An anchor vanished or the program could not be analysed: an error exit, never a verdict."""


def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build srcfacts:\n" + r.stdout + r.stderr)


def _tree_hash():
    h = hashlib.sha256()
    for p in (os.path.join(VERIF, "tool", "srcfacts.cpp"), os.path.join(VERIF, "sa", "facts.py")):
        h.update(open(p, "rb").read())
    for d in ("src/libsrcml", "src/parser", "src/client"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:24]


ANTLR = [("CommentTextLexer.g", None), ("TextLexer.g", None), ("OperatorLexer.g", "TextLexer.g"),
         ("KeywordLexer.g", "OperatorLexer.g;TextLexer.g"),
         ("srcMLParser.g", "OperatorLexer.g;KeywordLexer.g;TextLexer.g")]


def generate_parser(gen):
    """Runs ANTLR exactly as src/parser/CMakeLists.txt does, with the output in gen."""
    os.makedirs(gen, exist_ok=True)
    exe = shutil.which("runantlr") or "/usr/bin/runantlr"
    for g, lib in ANTLR:
        cmd = [exe, "-o", gen] + (["-glib", lib] if lib else []) + [g]
        r = subprocess.run(cmd, cwd=os.path.join(REPO, "src/parser"), capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("antlr failed on %s:\n%s%s" % (g, r.stdout, r.stderr))


def _client_ok(f):
    """follow the #include graph (quoted and angled names found in the client dir)"""
    seen, todo = set(), [f]
    base = os.path.join(REPO, "src/client")
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        try:
            s = open(x, errors="replace").read()
        except OSError:
            continue
        for m in re.findall(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', s, re.M):
            if m in CLIENT_UNAVAILABLE_HEADERS:
                return False
            p = os.path.join(base, m)
            if os.path.exists(p):
                todo.append(p)
    return True


def _run_tool(src, out, gen, extra):
    flags = ["-std=gnu++11", "-DWITH_LIBXSLT", "-include", "algorithm", "-w",
             "-I" + REPO + "/src/libsrcml", "-I" + REPO + "/src/parser", "-I" + gen,
             "-I/usr/include/libxml2", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + extra
    cmd = [TOOL, "--root=" + REPO + "/src", "--root=" + gen, "-o", out, src, "--"] + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken("srcfacts failed on %s:\n%s" % (src, (r.stderr or r.stdout)[-3000:]))


class Program:
    def __init__(self):
        self.types = []
        self.decls = {}
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.funcs = {}
        self.units = []
        self.gen = None
        self.by_qn = {}
        self.overriders = {}

    def merge(self, tu):
        off = len(self.types)
        self.units.append(tu["main"])
        typekeys = {"t", "p", "ret", "at", "dt"}

        # types: renumber
        def ren(o):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k in ("t", "p", "ret", "at", "dt") and isinstance(v, int) and v >= 0:
                        o[k] = v + off
                    elif k == "ps":
                        o[k] = [x + off if x >= 0 else x for x in v]
                    elif isinstance(v, (dict, list)):
                        ren(v)
            elif isinstance(o, list):
                for v in o:
                    if isinstance(v, (dict, list)):
                        ren(v)
        for key in ("types", "decls", "records", "vars", "funcs"):
            ren(tu[key])
        self.types.extend(tu["types"])
        for k, v in tu["decls"].items():
            old = self.decls.get(k)
            if old is None or (old.get("sys") and not v.get("sys")):
                self.decls[k] = v
        for k, v in tu["records"].items():
            if k not in self.records or (not self.records[k]["fields"] and v["fields"]):
                self.records[k] = v
        for k, v in tu["enums"].items():
            self.enums.setdefault(k, v)
        for k, v in tu["vars"].items():
            old = self.vars.get(k)
            if old is None or (not old.get("def") and v.get("def")) or ("init" not in old and "init" in v):
                self.vars[k] = v
        for k, v in tu["funcs"].items():
            if k not in self.funcs:
                v["usr"] = k
                self.funcs[k] = v

    def finish(self):
        for u, f in self.funcs.items():
            self.by_qn.setdefault(f["qn"], []).append(f)
        for u, d in self.decls.items():
            for o in d.get("ov", ()):
                self.overriders.setdefault(o, set()).add(u)

    def fn(self, qn, required=True):
        l = self.by_qn.get(qn)
        if not l:
            if required:
                raise AnalysisBroken("anchor function %s not found" % qn)
            return None
        return l[0]

    def fns(self, qn):
        return self.by_qn.get(qn, [])

    def record(self, name):
        r = self.records.get(name)
        if not r:
            raise AnalysisBroken("anchor record %s not found" % name)
        return r

    def type(self, i):
        return self.types[i] if i is not None and i >= 0 else {"k": "?", "s": "?"}

    def all_overriders(self, usr):
        res, todo = set(), [usr]
        while todo:
            x = todo.pop()
            for y in self.overriders.get(x, ()):
                if y not in res:
                    res.add(y)
                    todo.append(y)
        return res

    def relpath(self, f):
        if f.startswith(REPO + "/"):
            return f[len(REPO) + 1:]
        if self.gen and f.startswith(self.gen):
            return "<generated>/" + os.path.basename(f)
        return f


def load(parts=("libsrcml", "parser", "client")):
    """parts: libsrcml, parser, gen (the generated parser and lexers), client"""
    build_tool()
    key = _tree_hash() + "-" + "-".join(sorted(parts))
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    pk = os.path.join(cache, key + ".pkl")
    if os.path.exists(pk) and not os.environ.get("VERIF_NOCACHE"):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    work = tempfile.mkdtemp(prefix="sf-", dir=cache)
    try:
        gen = os.path.join(work, "gen")
        generate_parser(gen)
        srcs = []
        if "libsrcml" in parts:
            srcs += [(s, []) for s in sorted(glob.glob(REPO + "/src/libsrcml/*.cpp"))]
        if "parser" in parts:
            srcs += [(s, []) for s in sorted(glob.glob(REPO + "/src/parser/*.cpp"))]
        if "gen" in parts:
            srcs = [(os.path.join(gen, n), []) for n in ("srcMLParser.cpp", "KeywordLexer.cpp", "CommentTextLexer.cpp")] + srcs
        skipped = []
        if "client" in parts:
            for s in sorted(glob.glob(REPO + "/src/client/*.cpp")):
                if _client_ok(s):
                    srcs.append((s, ["-I" + REPO + "/src/client"]))
                else:
                    skipped.append(os.path.basename(s))
        if not srcs:
            raise AnalysisBroken("no sources found")
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for i, (s, extra) in enumerate(srcs):
                out = os.path.join(work, "%d.json" % i)
                jobs.append((out, ex.submit(_run_tool, s, out, gen, extra)))
            for _, j in jobs:
                j.result()
        P = Program()
        P.gen = gen
        P.skipped = skipped
        for out, _ in jobs:
            with open(out) as f:
                P.merge(json.load(f))
        P.finish()
        for f in os.listdir(cache):
            if f.endswith(".pkl") and not f.startswith(key[:24]):
                try:
                    os.unlink(os.path.join(cache, f))
                except OSError:
                    pass
        tmp = pk + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(P, f, protocol=4)
        os.rename(tmp, pk)
        return P
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    P = load(tuple(sys.argv[1:]) or ("libsrcml", "parser"))
    print(len(P.units), "units", len(P.funcs), "functions", len(P.decls), "decls", len(P.types), "types", "%.1fs" % (time.time() - t))
