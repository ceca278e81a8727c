"""Run by C23 in fresh processes: reads a list of [kind, text] and prints what the library makes of each."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)


def facts(kind, text):
    from vf import legs as L
    from vf import sut
    try:
        o = sut.PARSERS[kind](text)
        return [repr(L.canon_of(o, kind)), sut.show(o), sut.show(o, True), sut.show(o, True, 2), repr(getattr(o, "data_type", None))]
    except sut.SutError as e:
        return ["refused", type(e.exc).__name__, str(e.exc)]


if __name__ == "__main__":
    items = json.load(sys.stdin)
    order = list(range(len(items)))
    if sys.argv[1] == "backwards":
        order.reverse()
    elif sys.argv[1] == "twice":
        order = order + order
    out = {}
    for i in order:
        f = facts(*items[i])
        if out.setdefault(i, f) != f:
            out[i] = ["changed", out[i], f]
    if sys.argv[1] == "threads":      # the same texts again, on four threads at once that change over as often as possible
        import random
        import threading

        def work(k):
            mine = list(range(len(items)))
            random.Random(k).shuffle(mine)
            for i in mine:
                try:
                    f = facts(*items[i])
                except BaseException as e:
                    f = [type(e).__name__, str(e)]
                if f != out[i]:
                    wrong.append((i, f))

        wrong = []
        sys.setswitchinterval(1e-6)
        threading.stack_size(256 << 20)
        threads = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for i, f in wrong:
            out[i] = ["changed on a thread", out[i], f]
    json.dump([out[i] for i in range(len(items))], sys.stdout)
