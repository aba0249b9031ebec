"""No hidden shared state."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
from fw import *  # noqa

RULE = ("over the type-checked program (template patterns and their instantiations): no variable of the library with static or thread storage is changeable and used "
        "otherwise than by reading it, no local static is initialised from arguments, locals or members (it would keep the values of the first call), no changeable "
        "variable of another library is used except the output stream of the log messages, and no function with process-wide hidden state is called")
# functions whose result or effect goes through process-wide state
HIDDEN = re.compile(r"(^|::)(s?rand|rand_r|s?random|[dlm]rand48|srand48|strtok|setlocale|getenv|setenv|putenv|unsetenv|fesetround|feholdexcept|fesetenv|feenableexcept|"
                    r"tmpnam|localtime|gmtime|ctime|asctime|Random|setRandom|setNbThreads|initParallel|setCpuCacheSizes|sync_with_stdio|omp_set_num_threads|signal|atexit|"
                    r"set_new_handler|set_terminate|random_device|getThreadId|this_thread|get_id|imbue)$")
STREAMS = ("std::cout", "std::cerr", "std::clog", "stdout", "stderr")
CLIENTS = ("optim.cpp", "solver.cpp", "dispatch.cpp", "autodiff.cpp")


def ask(src, lib, defs=()):
    cmd = [build_tool("astq"), src, lib, "--", "-std=gnu++20", "-resource-dir", resource_dir(), "-DHAS_EIGEN"] + list(defs) + INCS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("%s does not compile: %s" % (os.path.basename(src), r.stderr[-1500:]))
    return [json.loads(x) for x in r.stdout.splitlines()]


def findings(facts, lib):
    """(construct, location, what) for everything the rule forbids"""
    out = []
    for f in facts:
        if f["kind"] == "var":
            st = "thread-local" if f["thread"] else "static"
            if f["writes"]:
                out.append((f["name"], f["at"], "%s variable of type %s is changed or handed out at %s" % (st, f["type"], ", ".join(f["writes"][:4]))))
            elif f["deps"]:
                out.append((f["name"], f["at"], "local %s variable keeps the values its first initialisation took from %s" % (st, ", ".join(f["deps"][:4]))))
        elif f["kind"] == "ref":
            n, at, how = f["v"]
            if n not in STREAMS:
                out.append((n, at, "uses (%s) a changeable variable of another library" % how))
        elif f["kind"] == "call":
            n, at = f["v"]
            if HIDDEN.search(n):
                out.append((n, at, "calls a function with process-wide state"))
    return out


def body(c):
    # the rule finds what it has to find, and nothing else
    wit = os.path.join(ROOT, "clients", "statics_witness.h")
    src = c.work.path("witness.cpp")
    open(src, "w").write('#include "%s"\n' % wit)
    got = {int(at.rsplit(":", 1)[1]) for _, at, _ in findings(ask(src, wit), wit)}
    want = {i for i, l in enumerate(open(wit), 1) if l.rstrip().endswith("// BAD")}
    if got != want:
        raise Broken("the rule does not tell the constructs of statics_witness.h apart: missed lines %s, extra lines %s" % (sorted(want - got), sorted(got - want)))
    lib = os.path.join(REPO, "include", "tinyopt")
    heads = library_headers()
    left = [h for h in heads if missing_external(h)]
    usable = [h for h in heads if h not in left]
    every = c.work.path("every.cpp")
    open(every, "w").write("".join("#include <%s>\n" % h for h in usable))
    srcs = [("all headers", every, ())] + [(n, os.path.join(ROOT, "clients", n), d) for n in CLIENTS for d in ((), ("-DVP_LOG",))]

    def one(name, s, defs):
        def go():
            facts = ask(s, lib, defs)
            su = [f for f in facts if f["kind"] == "sum"][0]
            if su["errors"] or su["functions"] < 50:
                raise Broken("%s: only %d functions of the library seen" % (name, su["functions"]))
            bad = {}
            for n, at, what in findings(facts, lib):
                bad.setdefault((n, at), what)
            for f in facts:
                if f["kind"] == "var":
                    c.oblige("%s: %s never changes" % (name, f["name"]), (f["name"], f["at"]) not in bad, where=f["at"], detail=bad.pop((f["name"], f["at"]), ""))
            calls = [f for f in facts if f["kind"] in ("call", "ref")]
            for (n, at), what in bad.items():
                c.oblige("%s: %s" % (name, n), False, where=at, detail=what)
            c.oblige("%s: %d calls and uses of foreign variables carry no hidden state" % (name, len(calls)), not bad, where=lib, detail="%d do" % len(bad))
            c.count("expressions looked at", su["exprs"])
            c.count("library functions looked at", su["functions"])
        return go
    c.parallel([one(*s) for s in srcs])
    c.notes["headers"] = len(usable)
    c.notes["headers not analysed (their external library is not installed)"] = ", ".join(left)
    if len(usable) < 20:
        raise Broken("only %d headers compile" % len(usable))


if __name__ == "__main__":
    main("C22", RULE, body, min_obl=100, assumptions=["callbacks supplied by the user keep no shared state of their own", "the standard library, Eigen and the clock are trusted"])
