"""Which library lines a check's cases execute:  tools/cov.py C01 [n] [seed]  (development aid).

Lines are recorded with sys.monitoring, in every forked process, and merged."""
import dis
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, main, runner  # noqa: E402

boot.boot()
HIT = {}
D = tempfile.mkdtemp(prefix="verif-cov-")
TOOL = 4
mon = sys.monitoring


def line(code, ln):
    if code.co_filename.startswith(boot.PKG):
        HIT.setdefault(code.co_filename[len(boot.PKG):], set()).add(ln)
    return mon.DISABLE


real_exit = os._exit
N = [0]


def leave(code):
    if HIT:
        N[0] += 1
        with open(os.path.join(D, f"{os.getpid()}.{N[0]}"), "w") as f:
            for fn, s in HIT.items():
                f.write(fn + " " + " ".join(map(str, sorted(s))) + "\n")
    real_exit(code)


def lines_of(code, out):
    for _, _, ln in code.co_lines():
        if ln:
            out.add(ln)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            if c.co_name != "<module>":
                lines_of(c, out)


def main_():
    global N
    cid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2] != "-" else None
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    check = main.get_check(cid)
    os._exit = leave
    mon.use_tool_id(TOOL, "cov")
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)
    HIT.clear()
    runner.sweep(check, seed, "quick", n or check.cases("quick"), 8, 800)
    mon.set_events(TOOL, 0)
    tot = {}
    for f in os.listdir(D):
        for ln in open(os.path.join(D, f)):
            fn, *xs = ln.split()
            tot.setdefault(fn, set()).update(map(int, xs))
    shutil.rmtree(D)
    for root, _, files in os.walk(boot.PKG):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            src = open(p).read()
            body = set()
            mod = compile(src, p, "exec")
            top = set()
            for c in mod.co_consts:
                if hasattr(c, "co_code"):
                    stack = [c]
                    while stack:
                        k = stack.pop()
                        subs = [q for q in k.co_consts if hasattr(q, "co_code")]
                        isfn = k.co_flags & 0x1  # CO_OPTIMIZED: a function, not a class body
                        if isfn:
                            ls = {x for _, _, x in k.co_lines() if x} - {k.co_firstlineno}
                            body |= ls
                        stack += subs
            rel = p[len(boot.PKG):]
            miss = sorted(body - tot.get(rel, set()))
            L = src.split("\n")
            print(f"== {rel}: {len(body) - len(miss)}/{len(body)}")
            for m in miss:
                print(f"   {m}: {L[m - 1].strip()[:110]}")


main_()
