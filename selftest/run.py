"""Differential test of the abstract interpreter of Python: python selftest/run.py [names].

Every t_ function of python_features*.py is evaluated by this Python and by sa/pyai; known values in,
known values out, so both must agree.  Nothing of /repo is involved, and no check depends on it.
"""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
sys.setrecursionlimit(100000)


def main():
    return any([compare(m) for m in ('python_features', 'python_features2', 'python_features3')])


def compare(module):
    from sa import dom, pyai, pylib, pysys    # noqa: F401
    host = importlib.import_module(module)
    pysys.reset()
    world = pylib.make_world(HERE)
    bad = 0
    mod = None
    names = [n for n in vars(host) if n.startswith('t_') and (n in sys.argv[1:] or not sys.argv[1:])]
    try:
        mod = world.load_source(module, os.path.join(HERE, module + '.py'), False)
    except (pyai.PyExc, dom.Unsupported) as e:
        print('import:', describe(e, pyai))
        return 1
    for n in names:
        want = getattr(host, n)()
        try:
            v = pyai.call(mod.d[n])
            got = [text(x, pyai) for x in v] if isinstance(v, (tuple, list)) else text(v, pyai)
        except Exception as e:
            print('%s: %s' % (n, describe(e, pyai)))
            if len(sys.argv) == 2 and not isinstance(e, pyai.PyExc):
                raise
            bad += 1
            continue
        want = [repr(x) for x in want] if isinstance(want, (tuple, list)) else repr(want)
        if got != want:
            bad += 1
            for i, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    print('%s[%d]: %s instead of %s' % (n, i, g, w))
    print('%d of %d disagree' % (bad, len(names)))
    return bool(bad)


def text(v, pyai):
    r = pyai.repr_(v)
    return r if isinstance(r, str) else repr(r)


def describe(e, pyai):
    if isinstance(e, pyai.PyExc):
        return '%s: %s at %s' % (e.obj.cls.name, pyai.str_(e.obj), pyai.fmt_where(e.where()))
    return '%s: %s' % (type(e).__name__, e)


if __name__ == '__main__':
    sys.exit(main())
