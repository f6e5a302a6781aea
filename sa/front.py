"""Schema definitions in the other input language: isar XML, completed by a patch where it cannot express them."""

from . import spec
from .spec import Const, Enum, Prim, Struct, Typedef, Union

PRIM_NAMES = {'u8': '8 bit integer unsigned', 'u16': '16 bit integer unsigned', 'u32': '32 bit integer unsigned',
              'u64': '64 bit integer unsigned', 'i8': '8 bit integer signed', 'i16': '16 bit integer signed',
              'i32': '32 bit integer signed', 'i64': '64 bit integer signed', 'r32': '32 bit float',
              'r64': '64 bit float'}


def tname(t):
    return t.name


def esc(s):
    return str(s).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def attr(**kw):
    return ''.join(' %s="%s"' % (k, esc(v)) for k, v in kw.items() if v is not None)


def size_of(m):
    return m.size if m.size_text is None else ''.join(map(str, m.size_text))


def member(m):
    a = attr(name=m.name, type=tname(m.type))
    if m.kind in ('plain', 'greedy'):
        return '<member%s/>' % a
    if m.kind == 'opt':
        return '<member%s optional="true"/>' % a
    if m.kind == 'fixed':
        d = attr(size=size_of(m), size2=getattr(m, 'size2', None))
    elif m.kind == 'lim':
        d = attr(size=size_of(m), size2=getattr(m, 'size2', None), isVariableSize='true', variableSizeFieldName='num_of_' + m.name)
    elif m.kind == 'dyn':
        d = attr(isVariableSize='true', variableSizeFieldName='num_of_' + m.name)
    else:
        d = attr(variableSizeFieldName='@' + m.sizer)
    return '<member%s><dimension%s/></member>' % (a, d)


def definition(d):
    if isinstance(d, Const):
        return '<constant%s/>' % attr(name=d.name, value=d.value if not isinstance(d.value, list) else
                                      ''.join(map(str, d.value)))
    if isinstance(d, Enum):
        return '<enum%s>%s</enum>' % (attr(name=d.name), ''.join(
            '<enum-member%s/>' % attr(name=n, value=v if not isinstance(v, list) else ''.join(map(str, v)))
            for n, v in d.members))
    if isinstance(d, Typedef):
        if isinstance(d.type, Prim) and d.type.name in PRIM_NAMES:
            return '<typedef%s/>' % attr(name=d.name, primitiveType=PRIM_NAMES[d.type.name])
        return '<typedef%s/>' % attr(name=d.name, type=tname(d.type))
    if isinstance(d, Struct):
        return '<struct%s>%s</struct>' % (attr(name=d.name), ''.join(map(member, d.members)))
    if isinstance(d, Union):
        return '<union%s>%s</union>' % (attr(name=d.name), ''.join(
            '<member%s/>' % attr(type=tname(t), name=n, discriminatorValue=v) for v, n, t in d.arms))
    raise TypeError(d)


def isar_text(defs, includes=()):
    return '<x>\n%s%s</x>\n' % (''.join('<xi:include%s/>\n' % attr(href=i) for i in includes).replace('xi:', ''),
                                ''.join(definition(d) + '\n' for d in defs))


def patch_text(defs):
    """Patch completing what the XML cannot say (greedy arrays)."""
    out = []
    for d in defs:
        if isinstance(d, Struct):
            for m in d.members:
                if m.kind == 'greedy':
                    out.append('%s greedy %s\n' % (d.name, m.name))
    return ''.join(out)


def compile_isar(defs, outs=('python',), flags=()):
    from . import pysys
    files = {'/w/s.xml': isar_text(defs)}
    args = ['--isar'] + list(flags)
    p = patch_text(defs)
    if p:
        files['/w/p.txt'] = p
        args += ['--patch', '/w/p.txt']
    args.append('/w/s.xml')
    for o in outs:
        args += [pysys._OUTS[o], '/out']
    return pysys.compile_text(files, args)
