from core import *
import mp
from mp import byte
from absint import c_eq, c_ge, c_and, Engine

PLAIN = ['isNull', 'isBool', 'isInt', 'isUInt', 'isFloat', 'isString', 'isBlob', 'isMap', 'isArray', 'asBool',
         'asInt64', 'asUInt64', 'asDouble', 'asFloat', 'asStringView', 'asBlob', 'arraySize']


class E4(Engine):
    UNROLL = 4


def root_task(mod, name):
    r = Result(name)
    acc = name[len('drv_root_'):]
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    mp.judge(r, eng, acc, ZERO, eng.syms['in'], 'root')
    return r


# ---- element access: [X, Y] and {..} shapes, X of every class; Y must be found right after X
def fixed(eng, st, o, bs):
    for i, b in enumerate(bs):
        st.facts.add_eq(byte(eng, st, o + i) - b)
    return o + len(bs)


U8 = ('uint8', 0xcc, 0xcc)


def scalar_size(eng, st, cls, o):
    for tab in (mp.STR, mp.BIN):
        if cls in tab:
            h, n = mp.length(eng, st, cls, tab, o)
            return n + h
    for tab in (mp.SIGNED, mp.UNSIGNED, mp.FLT):
        if cls in tab:
            return Lin(1 + tab[cls])
    if cls in ('nil', 'true', 'false', 'posfixint', 'negfixint'):
        return ONE
    return None


def shapes():
    """(name, list of items); an item is a class name or raw bytes"""
    out = []
    for cls, lo, hi in mp.CLASSES:
        if cls in mp.ARR or cls in mp.MAP:
            continue
        out.append((cls, [cls]))
    for n in (0, 1, 3):
        out.append(('fixarray%d' % n, [bytes([0x90 + n])] + ['uint16'] * n))
        out.append(('array16x%d' % n, [bytes([0xdc, 0, n])] + ['int32'] * n))
        out.append(('array32x%d' % n, [bytes([0xdd, 0, 0, 0, n])] + ['str8'] * n))
        out.append(('fixmap%d' % n, [bytes([0x80 + n])] + ['fixstr', 'uint64'] * n))
        out.append(('map16x%d' % n, [bytes([0xde, 0, n])] + ['str8', 'bin8'] * n))
        out.append(('map32x%d' % n, [bytes([0xdf, 0, 0, 0, n])] + ['fixstr', 'float32'] * n))
    out.append(('nested', [b'\x92', b'\x91', 'str16', b'\x81', 'fixstr', b'\xdc\x00\x01', 'int8']))
    return out


def lay(eng, st, o, items):
    """constrain the input to the items from offset o; returns the end offset (None: not decodable)"""
    for it in items:
        if isinstance(it, bytes):
            o = fixed(eng, st, o, it)
            continue
        c = next(x for x in mp.CLASSES if x[0] == it)
        b = byte(eng, st, o)
        st.facts.add_ge(b - c[1])
        st.facts.add_ge((-b) + c[2])
        n = scalar_size(eng, st, it, o)
        if n is None:
            return None
        o = st.facts.norm(o + n)
    return o


def elem_task(acc, outer, items, where, idx, ycls):
    def task(mod, name):
        r = Result('%s of %s' % (name, where))
        box = {}

        def prep(eng, st, args, syms):
            o = fixed(eng, st, ZERO, outer)
            o = lay(eng, st, o, items)
            box['o'] = o
            if o is not None:
                y = next(c for c in mp.CLASSES if c[0] == ycls)
                b = byte(eng, st, o)
                st.facts.add_ge(b - y[1])
                st.facts.add_ge((-b) + y[2])
            st.facts.add_eq(eng.as_lin(st, args[2]) - idx)
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E4)
        r.take(eng, bounds=False)
        if box['o'] is None:
            R = mp.rules.Rule(r, eng)
            for e in eng.exits:
                if e.kind == 'ret':
                    R.never(e.st, 'element', 'unsupported ' + where, 'lookup steps over an unsupported %s' % where, e.ins)
                elif e.kind == 'throw':
                    r.inst('element')
            return r
        o = box['o']
        mp.judge(r, eng, acc, o, eng.syms['in'] - o, 'after ' + where, classes=[c for c in mp.CLASSES if c[0] == ycls], prop='element', strict_throw=True)
        return r
    return task


def short_task(marker, width, j):
    """[X, Y] where X announces at least 256^(width-1-j) elements but only a few bytes follow"""
    def task(mod, name):
        r = Result('%s with truncated %02x count byte %d' % (name, marker, j))

        def prep(eng, st, args, syms):
            N = 4 + 1 + width + 6
            o = fixed(eng, st, ZERO, b'\x92' + bytes([marker]))
            for i in range(width):
                if i == j:
                    st.facts.add_ge(byte(eng, st, o + i) - (1 if j < width - 1 else 20))
                else:
                    st.facts.add_eq(byte(eng, st, o + i))
            for i in range(o.c + width, N):
                st.facts.add_eq(byte(eng, st, Lin(i)) - 0x01)
            st.facts.add_eq(syms['in'] - N)
            st.facts.add_eq(eng.as_lin(st, args[2]) - 1)
        eng = run_entry(mod, name, {'call': sink_hook}, prep=prep, cls=E4)
        r.take(eng, bounds=False)
        R = mp.rules.Rule(r, eng)
        for e in eng.exits:
            if e.kind == 'ret':
                R.never(e.st, 'count', 'count %02x byte %d' % (marker, j), 'a container announcing more elements than the input holds is skipped '
                        'as if it were shorter (count byte %d of marker %02x ignored)' % (j, marker), e.ins)
            elif e.kind == 'throw':
                r.inst('count')
        return r
    return task


def oob_task(mod, name):
    r = Result(name)
    eng = run_entry(mod, name, {'call': sink_hook})
    r.take(eng, bounds=False)
    R = mp.rules.Rule(r, eng)
    for e in eng.exits:
        if e.kind != 'ret':
            continue
        for cls, lo, hi in mp.CLASSES:
            for s in mp.inclass(eng, e.st.copy(), lo, hi, ZERO):
                if cls not in mp.ARR:
                    R.never(s, 'index', 'kind ' + cls, 'indexing a %s value succeeds' % cls, e.ins)
                else:
                    h, n = mp.length(eng, s, cls, mp.ARR, ZERO)
                    R.must(s, c_ge(n - eng.as_lin(s, eng.syms[2]) - 1), 'index', 'range ' + cls, 'index past the end of a %s succeeds' % cls, e.ins)
    return r


def run(ctx):
    mod = ctx.compile('msgpack_read.cpp')
    ctx.analyse(mod, root_task, names=['drv_root_' + a for a in PLAIN])
    ctx.analyse(mod, oob_task, names=['drv_elem_isNull'])
    tasks = []
    for nm, items in shapes():
        tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', b'\x92', items, nm, 1, 'uint16')))
    for hd, t in ((b'\x92', 'fixarray'), (b'\xdc\x00\x02', 'array16'), (b'\xdd\x00\x00\x00\x02', 'array32')):
        tasks.append(('drv_elem_asStringView', elem_task('asStringView', hd, ['str16'], 'str16 in ' + t, 1, 'str8')))
        tasks.append(('drv_elem_asStringView', elem_task('asStringView', hd, [], 'header of ' + t, 0, 'fixstr')))
        tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', hd, [], 'header of ' + t, 0, 'uint32')))
    tasks.append(('drv_elem_asUInt64', elem_task('asUInt64', b'\x93', ['bin8', 'int16'], 'two elements', 2, 'posfixint')))
    for mk, w in ((0xdc, 2), (0xdd, 4), (0xde, 2), (0xdf, 4)):
        for j in range(w):
            tasks.append(('drv_elem_asUInt64', short_task(mk, w, j)))
    ctx.analyse_list(mod, tasks)
    ctx.need('decode', 600)
    ctx.need('element', 100)
    ctx.need('index', 3)
    ctx.need('count', 12)
    ctx.assumptions = ['the buffer is shorter than 2^62 bytes']
    return finish(ctx, 'Abstract interpretation of every MsgPack accessor over an input of symbolic length and contents; each exit partition is compared, '
                  'per marker class of the MessagePack specification, with the kind, value, view position and length the specification assigns; '
                  'normal exits outside the accepting classes and throws inside them are violations.',
                  ['decode: accessor result on the root equals the specified value for all payload bytes, and other classes are rejected',
                   'element: the element after a value of each class is decoded at the offset right after that value, for every payload length',
                   'count: a container announcing more elements than the input can hold is never skipped as a shorter one',
                   'index: a successful array lookup implies the index is below the encoded count'])
