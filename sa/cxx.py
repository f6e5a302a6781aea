"""Compile-only witnesses: generated C++ is parsed and type-checked by g++, never linked or run."""

import os
import re
import shutil
import subprocess
import tempfile

from . import pysys

FLAGS = ['-std=c++11', '-Wall', '-Wextra', '-Werror', '-pedantic', '-Wno-address-of-packed-member', '-Wno-packed-not-aligned']


def include_dir():
    return os.path.join(pysys.ROOT, 'prophy_cpp', 'include')


def syntax(files, unit, flags=(), strict=False, timeout=120):
    """Errors of `g++ -fsyntax-only unit` with the given files next to it: [(file, line, message)]."""
    d = tempfile.mkdtemp(prefix='sa_cxx_')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        cmd = ['g++', '-fsyntax-only'] + (FLAGS if strict else ['-std=c++11', '-w']) + list(flags) + [
            '-I' + d, '-I' + include_dir(), os.path.join(d, unit)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout,
                           env=dict(os.environ, LC_ALL='C'))
        if r.returncode == 0:
            return []
        out = []
        for l in r.stdout.splitlines():
            m = re.match(r'(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)', l)
            if m:
                out.append((os.path.basename(m.group(1)), int(m.group(2)), m.group(3)))
        return out or [('?', 0, r.stdout[:500])]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def outputs(written, *names):
    """Generated files as {basename: text}; None when one is not plain text."""
    out = {}
    for k, v in written.items():
        if not isinstance(v, str):
            return None
        out[os.path.basename(k)] = v
    return out


class Asserts(object):
    """static_asserts whose failures are mapped back to what they state."""

    def __init__(self):
        self.items = []

    def add(self, cond, key):
        self.items.append((cond, key))

    def text(self):
        return ''.join('static_assert(%s, "W%d");\n' % (c, i) for i, (c, _) in enumerate(self.items))

    def split(self, errors):
        """(failed keys, other errors)"""
        bad, other = [], []
        for f, l, m in errors:
            k = re.search(r'static assertion failed: "?W(\d+)"?', m)
            if k:
                bad.append(self.items[int(k.group(1))][1])
            else:
                other.append('%s:%d: %s' % (f, l, m))
        return bad, other
