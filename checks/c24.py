"""Misuse of the API is rejected at compile time: witnesses the type checker decides (accepting twins and rejected programs)."""
from core import *
import concurrent.futures

DIR = os.path.join(VERIF, 'drivers', 'contract')
FEATURES = {'msgpack': 'MsgPack', 'zera': 'Zera', 'flex': 'Flex'}
READER = list(range(1, 29)) + [100 + k for k in range(1, 29)]
WRITER = list(range(31, 43)) + [100 + k for k in range(31, 43)]
ROOT = [45, 46, 145, 146]
PARTS = [50, 150, 151, 152, 153]
NAMES = dict(enumerate('isNull isInt isUInt isFloat isString isBlob isBool isMap isArray asInt8 asInt16 asInt32 asInt64 asUInt8 asUInt16 asUInt32 asUInt64 '
                       'asFloat asDouble asString asStringView asBool mapKeys contains arraySize asBlob operator[key] operator[index]'.split(), 1))
NAMES.update(enumerate('null boolean int64 uint64 double_ string binary key begin_array end_array begin_map end_map'.split(), 31))
NAMES.update({45: 'finish()', 46: 'construction of the writer from the root', 50: 'Name'})
SPECIAL = {145: 'a root that is not default-constructible', 146: 'a root without finish()', 150: 'no Name', 151: 'no Deserializer', 152: 'no RootSerializer', 153: 'no Serializer'}
WHAT = {'serialize_value': 'serialize<P>(value)', 'serialize_nothing': 'serialize<P>()', 'translate_to': 'translate<P>(reader)', 'translate_from': 'translate from a source',
        'write_with': 'serialize(value, writer)', 'build_with': 'running a builder on a writer'}


def broken(k):
    if k in SPECIAL:
        return SPECIAL[k]
    if k in (27, 28):
        return NAMES[k] + ' yields something that is not a value'
    return NAMES[k - 100] + ' missing' if k > 100 else NAMES[k] + ' of another type'


def cases():
    """(rule, program, defines, must compile, description)"""
    for f, bs in [('serialize_value', READER + WRITER + ROOT + PARTS), ('serialize_nothing', READER + WRITER + ROOT + PARTS), ('translate_to', READER + WRITER + ROOT + PARTS),
                  ('translate_from', READER), ('write_with', WRITER), ('build_with', WRITER)]:
        yield 'twin', f, (), True, WHAT[f]
        for b in bs:
            yield 'rejected', f, ('BROKEN=%d' % b,), False, '%s with %s' % (WHAT[f], broken(b))
    for b in READER:
        yield 'rejected', 'translate_from', ('SUBBROKEN=%d' % b,), False, 'translate from a source whose elements have %s' % broken(b)
    for c in (1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29):
        for s in (c, -c):
            yield 'twin' if s > 0 else 'rejected', 'misc', ('CASE=%d' % s,), s > 0, ''


TEXT = {-1: 'zmap of two keys and one value', -2: 'zmap of one key and two values', -3: 'zmap of one key and no value', -4: 'zmap of two keys and three values', -5: 'zmap of one key and two values inside zvec',
        -6: 'zmap of three keys and two values inside zmap', -7: 'zmap of one key and two builders', -10: 'copy-constructing a ZBuffer', -11: 'copy-assigning a ZBuffer', -12: 'copying a ZBuffer into a container',
        -13: 'copying a const ZBuffer', -14: 'passing a ZBuffer by value', -15: 'assigning a const ZBuffer', -20: 'translating from an int', -21: 'translating from a string', -22: 'translating from a ZBuffer',
        -23: 'translating from a byte vector', -24: 'translating to a type that is no protocol', -25: 'serializing with a type that is no protocol', -26: 'serializing with int as the protocol', -27: 'serializing with a writer as the protocol',
        -28: 'serializing a vector of a type without serialize()', -29: 'a builder holding a type without serialize()'}


def build(pch, src, defs, inc=()):
    cmd = ['clang++-18', '-std=gnu++20', '-fsyntax-only', '-ferror-limit=3', '-w'] + INC + (['-include-pch', pch] if pch else []) + ['-D' + d for d in defs] + list(inc) + [os.path.join(DIR, src + '.cpp')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    err = [l for l in r.stdout.splitlines() if ' error: ' in l]
    if r.returncode and not err:
        raise Broken('compiler failure on %s: %s' % (src, r.stdout[-1000:]))
    return r.returncode == 0, err


def run(ctx):
    # one precompiled header of the library, so that every witness is type-checked against the same current sources
    pch = os.path.join(ctx.work, 'lib.pch')
    h = os.path.join(ctx.work, 'lib.hpp')
    open(h, 'w').write('#include <zerialize/zerialize.hpp>\n')
    r = subprocess.run(['clang++-18', '-std=gnu++20', '-x', 'c++-header', '-w'] + INC + [h, '-o', pch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('the library headers do not compile:\n' + r.stdout[-2000:])
    C = list(cases())
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        R = list(ex.map(lambda c: build(pch, c[1], c[2]), C))
        B = list(ex.map(lambda p: build(None, 'builtin', ['PROTO=' + FEATURES[p], 'PROTO_HEADER=<zerialize/protocols/%s.hpp>' % p]), FEATURES))
    for (rule, f, d, ok, text), (got, err) in zip(C, R):
        ctx.entries += 1
        ctx.instances[rule] = ctx.instances.get(rule, 0) + 1
        if ok:
            if not got:
                raise Broken('the accepting twin %s.cpp %s does not compile, so its neighbours say nothing: %s' % (f, ' '.join(d), err[0]))
    for (rule, f, d, ok, text), (got, err) in zip(C, R):
        if not ok and got:
            t = text or TEXT[int(d[0].split('=')[1])]
            ctx.violation('accepted %s %s' % (f, ' '.join(d)), 'drivers/contract/%s.cpp %s: a program that misuses the API compiles: %s' % (f, ' '.join('-D' + x for x in d), t))
        if len(ctx.samples) < 12 and not ok and not got and ctx.instances.get('rejected') and hash(text) % 29 == 0:
            ctx.samples.append({'entry': '%s.cpp %s' % (f, ' '.join(d)), 'rule': text, 'outcome': err[0][:200]})
    for p, (got, err) in zip(FEATURES, B):
        ctx.entries += 1
        ctx.instances['builtin'] = ctx.instances.get('builtin', 0) + 1
        if not got:
            ctx.violation('builtin ' + p, '%s breaks the protocol contract: %s' % (FEATURES[p], '; '.join(err[:3])))
    ctx.need('twin', 20)
    ctx.need('rejected', 300)
    return finish(ctx, 'Programs of a few lines, each type-checked against the current headers: the accepting twin must compile, its %d neighbours with exactly one requirement broken (a member missing or of a neighbouring type) must not; '
                  'static assertions on the three built-in protocols that compile here.' % ctx.instances.get('rejected', 0),
                  ['twin: the correct program compiles', 'rejected: the program with one requirement broken does not', 'builtin: MsgPack, Zera and Flex satisfy Protocol and have exactly the documented accessor types on roots and elements'])
