"""Development aid: which source lines of FIAT a check's cases execute.  python tools/cov.py DIR PID [options of pbt/main.py]; tools/cov.py --report DIR"""
import os
import sys
import glob
import dis

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "pbt"))


def lines_of(path):
    out, todo = set(), [compile(open(path).read(), path, "exec")]
    while todo:
        c = todo.pop()
        out |= {l for _, l in dis.findlinestarts(c) if l}
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
    return out


def report(d):
    hit = {}
    for f in glob.glob(d + "/*.txt"):
        for l in open(f):
            p, n = l.rsplit(":", 1)
            hit.setdefault(p, set()).add(int(n))
    for p in sorted(hit):
        miss = sorted(lines_of(p) - hit[p])
        if miss:
            print(os.path.basename(p), len(miss), miss)


def main():
    if sys.argv[1] == "--report":
        return report(sys.argv[2])
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    sys.argv = sys.argv[1:]
    mon = sys.monitoring
    hit = set()

    def on_line(code, line):
        if "/FIAT/" in code.co_filename:
            hit.add((code.co_filename, line))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "cov")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    import main as m
    m.setup_path()
    import core
    task = core._task

    def wrapped(args):
        try:
            return task(args)
        finally:
            with open("%s/%s-%d.txt" % (d, sys.argv[1], os.getpid()), "w") as f:
                f.writelines("%s:%d\n" % x for x in hit)
    wrapped.__name__ = wrapped.__qualname__ = "_task"
    wrapped.__module__ = "core"
    core._task = wrapped
    sys.exit(m.main())


if __name__ == "__main__":
    main()
