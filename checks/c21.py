from core import *
import cb
import mp
import c03
from mp import byte
from absint import c_ge, c_and

PLAIN = ['isNull', 'isBool', 'isInt', 'isUInt', 'isFloat', 'isString', 'isBlob', 'isMap', 'isArray', 'asBool',
         'asInt64', 'asUInt64', 'asDouble', 'asFloat', 'asStringView', 'asBlob', 'arraySize']


class E21(c03.E3):
    UNROLL = 4


def root_task(mod, name):
    r = Result(name)
    eng = run_entry(mod, name, {'call': sink_hook}, cls=c03.E3)
    r.take(eng, bounds=False)
    cb.judge(r, eng, name[len('drv_root_'):], ZERO, eng.syms['in'], 'root')
    return r


def fixed(eng, st, o, bs):
    for i, b in enumerate(bs):
        st.facts.add_eq(byte(eng, st, o + i) - b)
    return o + len(bs)


def item_size(eng, st, cls, o):
    k, w = cb.kind(cls)
    if k in ('bytes', 'text') and w is not None:
        h, n = cb.argument(eng, st, cls, o)
        return n + h
    if k in ('uint', 'nint') and w is not None:
        return Lin(1 + w)
    if cls in cb.FLT:
        return Lin(1 + cb.FLT[cls])
    if cls == 'simple8':
        return Lin(2)
    if cls in ('simple', 'false', 'true', 'null', 'undefined'):
        return ONE
    return None


def shapes():
    """(name, items): a class name or raw bytes"""
    out = [(c, [c]) for c, _, _ in cb.CLASSES if cb.kind(c)[0] not in ('array', 'map', 'tag') and 'indefinite' not in c]
    for n in (0, 1, 3):
        for hd, nm in ((bytes([0x80 + n]), 'array'), (bytes([0x98, n]), 'array8'), (bytes([0x99, 0, n]), 'array16'),
                       (bytes([0x9a, 0, 0, 0, n]), 'array32'), (bytes([0x9b, 0, 0, 0, 0, 0, 0, 0, n]), 'array64')):
            out.append(('%s of %d' % (nm, n), [hd] + ['uint16'] * n))
        for hd, nm in ((bytes([0xa0 + n]), 'map'), (bytes([0xb8, n]), 'map8'), (bytes([0xb9, 0, n]), 'map16')):
            out.append(('%s of %d' % (nm, n), [hd] + ['text', 'double'] * n))
        out.append(('indefinite array of %d' % n, [b'\x9f'] + ['nint8'] * n + [b'\xff']))
        out.append(('indefinite map of %d' % n, [b'\xbf'] + ['text', 'bytes8'] * n + [b'\xff']))
        out.append(('indefinite text of %d' % n, [b'\x7f'] + ['text8'] * n + [b'\xff']))
        out.append(('indefinite bytes of %d' % n, [b'\x5f'] + ['bytes'] * n + [b'\xff']))
    for t, b in (('tag', b'\xc1'), ('tag8', b'\xd8\x20'), ('tag16', b'\xd9\xd9\xf7'), ('tag32', b'\xda\x00\x01\x00\x00'), ('tag64', b'\xdb' + b'\x01' * 8)):
        out.append((t, [b, 'text8']))
    out.append(('nested', [b'\x82', b'\x9f', 'text16', b'\xff', b'\xa1', 'text', b'\x81', 'single']))
    return out


# not well-formed: a lookup past them must fail
MALFORMED = [('chunk of another type', [b'\x7f', 'bytes', b'\xff']), ('nested indefinite chunk', [b'\x5f', b'\x5f', b'\xff']), ('nested text chunk', [b'\x7f', 'text8', b'\x7f', b'\xff']),
             ('break as an element', [b'\x81', b'\xff'])]


def lay(eng, st, o, items):
    for it in items:
        if isinstance(it, bytes):
            o = fixed(eng, st, o, it)
            continue
        _, lo, hi = cb.BY[it]
        b = byte(eng, st, o)
        st.facts.add_ge(b - lo)
        st.facts.add_ge((-b) + hi)
        n = item_size(eng, st, it, o)
        if n is None:
            return None
        o = st.facts.norm(o + n)
    return o


def elem_task(acc, outer, items, where, idx, ycls, bad=False):
    def task(mod, name):
        r = Result('%s of %s' % (name, where))
        box = {}

        def prep(eng, st, args, syms):
            o = fixed(eng, st, ZERO, outer)
            box['o'] = o = lay(eng, st, o, items)
            if o is not None and not bad:
                _, lo, hi = cb.BY[ycls]
                b = byte(eng, st, o)
                st.facts.add_ge(b - lo)
                st.facts.add_ge((-b) + hi)
            st.facts.add_eq(eng.as_lin(st, args[2]) - idx)
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E21)
        r.take(eng, bounds=False)
        o = box['o']
        if o is None or bad:
            R = mp.rules.Rule(r, eng)
            for e in eng.exits:
                if e.kind == 'ret':
                    R.never(e.st, 'element', 'malformed ' + where, 'lookup steps over %s, which is not well-formed' % where, e.ins)
                elif e.kind == 'throw':
                    r.inst('element')
            return r
        cb.judge(r, eng, acc, o, eng.syms['in'] - o, 'after ' + where, classes=[cb.BY[ycls]], prop='element')
        return r
    return task


def size_task(n):
    """indefinite-length arrays are counted"""
    def task(mod, name):
        r = Result('arraySize of an indefinite array of %d' % n)

        def prep(eng, st, args, syms):
            lay(eng, st, ZERO, [b'\x9f'] + ['uint8', 'text8', 'null', 'uint'][:n] + [b'\xff'])
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E21)
        r.take(eng, bounds=False)
        R = mp.rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind == 'ret':
                R.equal(e.st, mp.sinks(e.st)[0][1], Lin(n), 'element', 'indefinite size', 'an indefinite array of %d elements reports another size' % n, e.ins)
        return r
    return task


def chunk_task(label, items):
    """a chunked string with a chunk that may not be there"""
    def task(mod, name):
        r = Result('%s of a string with %s' % (name, label))
        eng = run_entry(mod, name, {'call': sink_hook}, prep=lambda eng, st, args, syms: lay(eng, st, ZERO, items) and None, cls=E21)
        r.take(eng, bounds=False)
        R = mp.rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind == 'ret':
                R.never(e.st, 'chunk', label, 'a string with %s is accepted' % label, e.ins)
            elif e.kind == 'throw':
                r.inst('chunk')
        return r
    return task


def count_task(label, items, head=b'\x9f', tail=b'\xff', more=1):
    """whatever an element is, it counts once"""
    def task(mod, name):
        r = Result('arraySize of an indefinite array holding ' + label)
        known = [False]

        def prep(eng, st, args, syms):
            o = lay(eng, st, ZERO, [head] + items + ['uint8'] * more + [tail])
            known[0] = o is not None
            if known[0]:
                st.facts.add_ge(syms['in'] - o)
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E21)
        r.take(eng, bounds=False)
        R = mp.rules.Rule(r, eng)
        for e in eng.exits if known[0] else ():
            if e.kind == 'ret':
                R.equal(e.st, mp.sinks(e.st)[0][1], Lin(1 + more), 'element', 'count ' + label, 'an indefinite array holding %s reports another size' % label, e.ins)
            elif e.kind == 'throw':
                R.never(e.st, 'element', 'count ' + label, 'the size of an indefinite array holding %s is refused' % label, e.ins)
        return r
    return task


def many_task(label, head):
    """far more members announced than a small buffer can hold"""
    def task(mod, name):
        r = Result('lookup past a %s of 2^32 in a small buffer' % label)

        def prep(eng, st, args, syms):
            lay(eng, st, ZERO, [b'\x82', head])
            st.facts.add_ge((-syms['in']) + 64)
            st.facts.add_eq(eng.as_lin(st, args[2]) - 1)
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E21)
        r.take(eng, bounds=False)
        R = mp.rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind == 'ret':
                R.never(e.st, 'element', 'many ' + label, 'lookup steps over a %s whose members are not there' % label, e.ins)
            elif e.kind == 'throw':
                r.inst('element')
        return r
    return task


def oob_task(mod, name):
    r = Result(name)
    eng = run_entry(mod, name, {'call': sink_hook}, cls=c03.E3)
    r.take(eng, bounds=False)
    R = mp.rules.Rule(r, eng)
    for e in eng.exits:
        if e.kind != 'ret':
            continue
        for cls, lo, hi in cb.CLASSES:
            for s in cb.inclass(eng, e.st.copy(), lo, hi, ZERO):
                k, w = cb.kind(cls)
                if k != 'array' or 'reserved' in cls:
                    R.never(s, 'index', 'kind ' + cls, 'indexing a %s value succeeds' % cls, e.ins)
                elif w is not None:
                    h, n = cb.argument(eng, s, cls, ZERO)
                    R.must(s, c_ge(n - eng.as_lin(s, eng.syms[2]) - 1), 'index', 'range ' + cls, 'index past the end of a %s succeeds' % cls, e.ins)
    return r


def run(ctx):
    cb.DEEP = ctx.tier == 'thorough'
    mod = ctx.compile('cbor_read.cpp', extra=cb.CBOR)
    ctx.analyse(mod, root_task, names=['drv_root_' + a for a in PLAIN])
    ctx.analyse(mod, oob_task, names=['drv_elem_isNull'])
    tasks = []
    for nm, items in shapes():
        tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', b'\x82', items, nm, 1, 'uint16')))
    for nm, items in MALFORMED:
        tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', b'\x82', items, nm, 1, 'uint16', True)))
    for hd, t in ((b'\x82', 'array'), (b'\x98\x02', 'array8'), (b'\x99\x00\x02', 'array16'), (b'\x9a\x00\x00\x00\x02', 'array32'),
                  (b'\x9b\x00\x00\x00\x00\x00\x00\x00\x02', 'array64'), (b'\x9f', 'indefinite array')):
        tasks.append(('drv_elem_asStringView', elem_task('asStringView', hd, ['text16'], 'text16 in ' + t, 1, 'text8')))
        tasks.append(('drv_elem_asBlob', elem_task('asBlob', hd, [], 'header of ' + t, 0, 'bytes')))
        tasks.append(('drv_elem_asInt64', elem_task('asInt64', hd, [], 'header of ' + t, 0, 'nint32')))
    tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', b'\x83', ['bytes8', 'nint16'], 'two elements', 2, 'uint')))
    for n in range(5):
        tasks.append(('drv_root_arraySize', size_task(n)))
    for nm, items in shapes():
        tasks.append(('drv_root_arraySize', count_task(nm, items)))
    for lab, items in (('a byte-string chunk', [b'\x7f', 'bytes', b'\xff']), ('a later byte-string chunk', [b'\x7f', 'text8', 'bytes8', b'\xff']), ('a chunked chunk', [b'\x7f', b'\x7f', 'text', b'\xff\xff']),
                       ('a number among the chunks', [b'\x7f', 'uint', b'\xff'])):
        tasks.append(('drv_root_asString', chunk_task(lab, items)))
    for lab, hd in (('map', b'\xbb\0\0\0\1\0\0\0\0'), ('array', b'\x9b\0\0\0\1\0\0\0\0')):
        tasks.append(('drv_elem_asUInt64', many_task(lab, hd)))
    ctx.analyse_list(mod, tasks)
    ctx.need('decode', 600)
    ctx.need('element', 100)
    ctx.need('index', 3)
    ctx.need('chunk', 3)
    ctx.need('half', 100)
    ctx.assumptions = ['the buffer is shorter than 2^62 bytes',
                       'the jsoncons headers, which are not installed here, are replaced by declarations: the reader calls nothing of them']
    return finish(ctx, 'Abstract interpretation of every CBOR accessor over an input of symbolic length and contents; each exit partition is compared, per class of '
                  'initial byte in RFC 8949, with the kind, value, view position and length the RFC assigns; normal exits outside the accepting classes and throws '
                  'inside them are violations. Half-precision results: the extracted expression is evaluated per sign, exponent and a set of fractions (all in the thorough tier).',
                  ['decode: accessor result on the root equals the value of RFC 8949 for all payload bytes, and other classes are rejected',
                   'element: the element after an item of each class is decoded right after that item, for every payload length; malformed items cannot be stepped over',
                   'index: a successful array lookup implies the index is below the encoded count'])
