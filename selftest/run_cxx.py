"""Differential test of the abstract interpreter of IR: python selftest/run_cxx.py [names].

Every t_ function of cxx_features.cpp writes text; the program built from it and sa/irai must write the same.
Nothing of /repo is involved, and no check depends on it.
"""

import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE)]
sys.setrecursionlimit(100000)


def native(text, names):
    d = tempfile.mkdtemp(prefix='sa_self_')
    try:
        main = '\n#include <iostream>\nint main() { static char b[1 << 16];\n%s}\n' % ''.join(
            'b[0] = 0; t_%s(b); std::cout << "%s\\t" << b << std::endl;\n' % (n, n) for n in names)
        with open(os.path.join(d, 'm.cpp'), 'w') as f:
            f.write(text + main)
        subprocess.check_call(['g++', '-std=c++11', '-w', '-o', os.path.join(d, 'm'), os.path.join(d, 'm.cpp')])
        out = subprocess.check_output([os.path.join(d, 'm')], universal_newlines=True)
        return dict(l.split('\t', 1) for l in out.splitlines())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def moves(text, names):
    """name -> which byte of the input, or ('=', constant), each byte of the output is."""
    d = tempfile.mkdtemp(prefix='sa_self_')
    try:
        main = '\n#include <iostream>\nint main() { alignas(8) uint8_t i[16]; alignas(8) uint8_t o[16];\n%s}\n' % ''.join(
            'for (int r = 0; r < 2; ++r) { for (int k = 0; k < 16; ++k) { i[k] = 16 * (3 + r) + k; o[k] = 0xee; } m_%s(i, o); std::cout << "%s"; '
            'for (int k = 0; k < 16; ++k) std::cout << " " << int(o[k]); std::cout << std::endl; }\n' % (n, n) for n in names)
        with open(os.path.join(d, 'm.cpp'), 'w') as f:
            f.write(text + main)
        subprocess.check_call(['g++', '-std=c++11', '-w', '-o', os.path.join(d, 'm'), os.path.join(d, 'm.cpp')])
        out = {}
        for l in subprocess.check_output([os.path.join(d, 'm')], universal_newlines=True).splitlines():
            out.setdefault(l.split()[0], []).append([int(x) for x in l.split()[1:]])
        return {n: [('=', a) if a == b else a % 16 for a, b in zip(*v)] for n, v in out.items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    from sa import cppsys, irai, pysys
    from sa.dom import Cell
    from sa.harness import Result
    with open(os.path.join(HERE, 'cxx_features.cpp')) as f:
        text = f.read()
    names = sys.argv[1:] or re.findall(r'^F\((\w+)\)', text, re.M)
    mnames = [n for n in re.findall(r'^M\((\w+)\)', text, re.M) if not sys.argv[1:] or n in sys.argv[1:]]
    names = [n for n in names if n not in mnames]
    want = native(text, names)
    wantm = moves(text, mnames)
    mod = cppsys.lower({'m.cpp': text}, 'm.cpp')
    bad = 0
    for n in names:
        res = Result()

        def run():
            m = irai.Machine(mod, {}, 10000000)
            b = irai.new_object('buffer', 1 << 16)
            m.call('t_' + n, b)
            out = []
            for c in b.o.data:
                if c == 0:
                    break
                out.append(chr(c) if isinstance(c, int) else '?%r?' % (c,))
            return ''.join(out)
        pysys.reset()
        got = cppsys.run_traces(run, res, n)
        if len(got) == 1 and got[0][2] is None and got[0][1] == want[n]:
            continue
        bad += 1
        for w, k in res.undecided.items():
            print('%s: undecided %s' % (n, w))
        for p, v, e in got:
            print('%s: %s' % (n, cppsys.fault_text(e) if e else '\n  got  %s\n  want %s' % (v, want[n])))
    for n in mnames:
        res = Result()

        def run():
            m = irai.Machine(mod, {}, 10000000)
            i, o = irai.new_object('input', 16), irai.new_object('output', 16)
            i.o.data[:] = [Cell('x', 'byte', k) for k in range(16)]
            o.o.data[:] = [0xee] * 16
            m.call('m_' + n, i, o)
            return [('=', c) if isinstance(c, int) else c.sig if c.kind == 'x' else str(c) for c in o.o.data]
        pysys.reset()
        got = cppsys.run_traces(run, res, n)
        if len(got) == 1 and got[0][2] is None and got[0][1] == wantm[n]:
            continue
        bad += 1
        for w, k in res.undecided.items():
            print('%s: undecided %s' % (n, w))
        for p, v, e in got:
            print('%s: %s' % (n, cppsys.fault_text(e) if e else '\n  got  %s\n  want %s' % (v, wantm[n])))
    print('%d of %d disagree' % (bad, len(names) + len(mnames)))
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main())
