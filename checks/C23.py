"""Headers are self-contained and usable from several translation units."""
import os
import re
import sys
import shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("compile witnesses: every header alone, used after including nothing else, and all headers in two opposite orders type-check in every supported language mode and "
        "configuration; in the IR of a translation unit including everything no function or variable of the library has strong external linkage")
A, Nd, LOG = "-DTINYOPT_DISABLE_AUTODIFF", "-DTINYOPT_DISABLE_NUMDIFF", "-DTINYOPT_LOG(...)=((void)0)"
CONF = {"default": (), "no automatic differentiation": (A,), "no numerical differentiation": (Nd,), "no differentiation": (A, Nd), "own log macro": (LOG,),
        "no formatters": ("-DTINYOPT_NO_FORMATTERS",)}
# without the library's formatters the program brings its own
OWN = """#include <format>
#include <sstream>
#include <Eigen/Dense>
#include <Eigen/Sparse>
template <typename T> requires requires(std::ostream &o, const T &m, const typename T::Scalar &s) { o << m; }
struct std::formatter<T, char> : std::formatter<std::string, char> {
  auto format(const T &m, auto &ctx) const {
    std::ostringstream os;
    os << m;
    return std::formatter<std::string, char>::format(os.str(), ctx);
  }
};
"""
CLANG20, CLANG23, GCC = (CLANG, "c++20"), (CLANG, "c++23"), ("g++", "c++20")


def errors(text):
    """first error inside the library (else the first error), with what led there"""
    es = [l for l in text.splitlines() if " error: " in l or "fatal error" in l]
    lib = [l for l in es if "/include/tinyopt/" in l]
    via = [l.split(": note:")[0] for l in text.splitlines() if "/include/tinyopt/" in l and ("note: in instantiation" in l or "required from" in l)]
    e = (lib or es or ["no message"])[0]
    return e.replace(REPO + "/", "")[:300] + (" via " + via[0].replace(REPO + "/", "") if via and not lib else "")


def uses():
    out, cur = [], None
    for l in open(os.path.join(ROOT, "clients", "uses.txt")):
        m = re.match(r"== (\S+)(?: \[(\S+)\])?$", l.strip())
        if m:
            cur = (m.group(1), tuple("-D" + x for x in m.group(2).split("+")) if m.group(2) else (), [])
            out.append(cur)
        elif cur and not l.startswith("#"):
            cur[2].append(l)
    return [(h, ex, "".join(b)) for h, ex, b in out]


def reached(heads):
    """header -> library headers it includes, directly or not"""
    inc = {}
    for h in heads:
        t = open(os.path.join(REPO, "include", h), errors="replace").read()
        inc[h] = {p for p in re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', t)}
        inc[h] = {q for p in inc[h] for q in (p, os.path.normpath(os.path.join(os.path.dirname(h), p))) if q in heads}
    out = {}
    for h in heads:
        todo, got = [h], set()
        while todo:
            x = todo.pop()
            if x not in got:
                got.add(x)
                todo += inc[x]
        out[h] = got
    return out


def strong(ll):
    """(name, file:line) of the strong external definitions of a textual IR module"""
    files, subs = {}, {}
    for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', ll, re.M):
        files[m.group(1)] = os.path.join(m.group(3), m.group(2))
    for m in re.finditer(r'^(!\d+) = (?:distinct )?!DI(?:Subprogram|GlobalVariable)\((.*)\)$', ll, re.M):
        f, l = re.search(r"file: (!\d+)", m.group(2)), re.search(r"line: (\d+)", m.group(2))
        subs[m.group(1)] = "%s:%s" % (files.get(f.group(1), "?") if f else "?", l.group(1) if l else "?")
    for m in re.finditer(r'^(!\d+) = !DIGlobalVariableExpression\(var: (!\d+)', ll, re.M):
        subs[m.group(1)] = subs.get(m.group(2), "?")
    res, seen = [], 0
    weak = re.compile(r"\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally|appending|common|external|extern_weak)\b")
    for l in ll.splitlines():
        m = re.match(r'(?:define (.*?)(@"[^"]*"|@[\w.$-]+)\(|(@"[^"]*"|@[\w.$-]+) = (.*?\b(?:global|constant|alias|ifunc)\b))', l)
        if not m:
            continue
        seen += 1
        if weak.search(m.group(1) if m.group(2) else m.group(4)):
            continue
        d = re.search(r"!dbg (!\d+)", l)
        res.append(((m.group(2) or m.group(3)).strip('@"'), subs.get(d.group(1), "?") if d else "?"))
    return res, seen


def demangle(n):
    r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt", n], capture_output=True, text=True)
    return r.stdout.strip() or n


def body(c):
    heads = library_headers()
    left = [h for h in heads if missing_external(h)]
    usable = [h for h in heads if h not in left]
    if len(usable) < 10 or "tinyopt/tinyopt.h" not in usable:
        raise Broken("only %d usable headers" % len(usable))
    c.count("headers", len(usable))
    c.count("headers left out because what they wrap is not installed", len(left))
    modes = [CLANG20, CLANG23] + ([GCC] if shutil.which("g++") else [])
    sees, with_use = {}, {h for h, ex, b in uses() if not ex}
    jobs = []           # (key, text, defs, compiler, standard, header)

    def add(key, text, conf, mode, where):
        jobs.append(("%s (%s, %s %s)" % (key, conf, os.path.basename(mode[0]), mode[1]), text, CONF[conf], mode, where))
    macro = re.compile(r"TINYOPT_(DISABLE_AUTODIFF|DISABLE_NUMDIFF|LOG|NO_FORMATTERS)\b")
    reach = reached(usable)
    for h in usable:
        # a configuration matters to a header only if something it includes tests the macro
        seen = {m.group(0) for x in reach[h] for m in macro.finditer(open(os.path.join(REPO, "include", x), errors="replace").read())}
        sees[h] = [conf for conf in CONF if not CONF[conf] or any(re.match(r"-D(\w+)", d).group(1) in seen for d in CONF[conf])]
        for conf in sees[h] if h not in with_use else ("default",):
            add(h + " alone", "#include <%s>\n#include <%s>\n" % (h, h), conf, CLANG20, h)
        for mode in modes[2:]:
            add(h + " alone", "#include <%s>\n" % h, "default", mode, h)
        # (a use of the header includes it first, and so covers it alone)
    for name, order in (("every header in order", usable), ("every header in reverse order", usable[::-1])):
        for conf in CONF:
            add(name, "".join("#include <%s>\n" % h for h in order), conf, CLANG20, "tinyopt/")
        for mode in modes[1:]:
            add(name, "".join("#include <%s>\n" % h for h in order), "default", mode, "tinyopt/")
    used = 0
    for h, ex, b in uses():
        if h not in usable:
            continue
        used += 1
        text = "#include <%s>\nvoid use() {\n%s}\n" % (h, b)
        for conf in sees[h]:
            if ex and all(x in CONF[conf] for x in ex):
                continue
            add("using %s" % h, (OWN if conf == "no formatters" else "") + text, conf, CLANG20, h)
        for mode in modes[1:]:
            if h in ("tinyopt/optimize.h", "tinyopt/tinyopt.h", "tinyopt/losses/losses.h", "tinyopt/diff/gradient_check.h"):
                add("using %s" % h, text, "default", mode, h)
    if used < 20:
        raise Broken("only %d of the example uses name an existing header" % used)
    # a build option that switches a macro of the headers on has to define that macro
    for d, _, fs in os.walk(os.path.join(REPO, "cmake")):
        for f in sorted(fs):
            for i, l in enumerate(open(os.path.join(d, f), errors="replace"), 1):
                for opt, dfn in re.findall(r"\$<\$<BOOL:\$\{(TINYOPT_DISABLE_\w+)\}>:(\w+)", l):
                    c.oblige("the build option %s defines the macro the headers test" % opt, dfn == opt, "cmake/%s:%d" % (f, i), "defines %s" % dfn)
    # what the rules have to reject
    bad = c.work.path("bad.h")
    open(bad, "w").write("#pragma once\nstd::vector<int> vp_f();\n")
    if try_compile(c.work, '#include "%s"\n' % bad, "bad", (), "c++20")[0]:
        raise Broken("a header that is not self-contained type-checks")
    open(bad, "w").write("#pragma once\nint vp_f1() { return 1; }\nint vp_v1 = 2;\ntemplate <int N> struct VpS { static int s; int g(); };\ntemplate <> int VpS<1>::g() { return 3; }\n"
                         "template <> int VpS<2>::s = 4;\ninline int vp_ok() { return 1; }\ninline int vp_okv = 1;\nconst int vp_okc = 1;\nstatic int vp_oks() { return vp_okc + vp_okv; }\n"
                         "template <int N> int VpS<N>::s = 1;\ntemplate <int N> int VpS<N>::g() { return vp_oks() + vp_ok() + s; }\nstruct VpT { int m() { return VpS<3>().g(); } static inline int z = 1; };\n")

    def ir(text, tag, defs):
        src, out = c.work.path(tag + ".cpp"), c.work.path(tag + ".ll")
        open(src, "w").write(text)
        r = subprocess.run([CLANG, "-std=c++20", "-O0", "-g", "-S", "-emit-llvm"] + list(defs) + INCS + [src, "-o", out], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        return strong(open(out).read()), ""
    got = {demangle(n) for n, _ in ir('#include "%s"\nstatic int u() { return VpT().m(); }\nvoid *vp_u = (void *)&u;\n' % bad, "badir", ())[0][0]}
    if got != {"vp_f1()", "vp_v1", "VpS<1>::g()", "VpS<2>::s", "vp_u"}:
        raise Broken("the linkage rule does not tell the example definitions apart: %s" % sorted(got))

    def compile1(j):
        i, (key, text, defs, mode, where) = j
        return try_compile(c.work, text, "w%d" % i, defs, mode[1], compiler=mode[0])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile1, enumerate(jobs)))
        for (key, text, defs, mode, where), (ok, err) in zip(jobs, res):
            c.oblige(key + ": type-checks", ok, "include/" + where, "" if ok else errors(err))
            c.instances.append(key)
        alluse = "".join("#include <%s>\n" % h for h in usable)

        def link(conf):
            text = alluse       # contains the formatters in every configuration
            for k, (h, exc, b) in enumerate(uses()):
                if h in usable and not (exc and all(x in CONF[conf] for x in exc)) and try_ok.get(("using %s" % h, conf), try_ok.get(("using %s" % h, "default"), True)):
                    text += "inline void vp_use%d() {\n%s}\nvoid (*vp_keep%d)() = &vp_use%d;\n" % (k, b, k, k)
            return ir(text, "all" + "".join(x for x in conf if x.isalpha()), CONF[conf])
        try_ok = {}
        for (key, text, defs, mode, where), (ok, err) in zip(jobs, res):
            if key.startswith("using ") and mode == CLANG20:
                k = (key.split(" (")[0], [n for n, v in CONF.items() if v == defs][0])
                try_ok[k] = ok and try_ok.get(k, True)
        for conf, (r, err) in zip(CONF, ex.map(link, CONF)):
            if r is None:
                c.oblige("everything used together (%s): compiles" % conf, False, "include/tinyopt/", errors(err))
                continue
            defs, seen = r
            c.count("definitions in the IR (%s)" % conf, seen)
            if seen < 500:
                raise Broken("only %d definitions in the IR of %s" % (seen, conf))
            own = [(n, at) for n, at in defs if not n.startswith("vp_") and "/clients/" not in at]
            c.oblige("everything used together (%s): no strong definition" % conf, not own, own[0][1].replace(REPO + "/", "") if own else "include/tinyopt/",
                     "; ".join("%s at %s" % (demangle(n), at.replace(REPO + "/", "")) for n, at in own[:6]))


if __name__ == "__main__":
    main("C23", RULE, body, min_obl=120, assumptions=["clang 18 (C++20, C++23) and, when installed, g++ (C++20) stand for the supported language modes",
                                                      "headers wrapping libraries that are not installed (Sophus, Lie++) are not compiled",
                                                      "the templates are instantiated by the uses listed in clients/uses.txt"])
