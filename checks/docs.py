"""Families of documents (as writer call sequences) and of call histories."""
SCALARS = ('null', 'bool', 'i64', 'u64', 'f64', 'str', 'blob')


def arr(*xs):
    return (('barr', len(xs)),) + tuple(c for x in xs for c in x) + ('earr',)


def obj(*xs):
    return (('bmap', len(xs)),) + tuple(c for x in xs for c in ('key',) + x) + ('emap',)


def one(k):
    return (k,)


def documents(deep):
    """shapes of documents; payload lengths, numbers and key contents stay arbitrary"""
    S = [one(k) for k in SCALARS]
    N, I, F, B, X, U = one('null'), one('i64'), one('f64'), one('blob'), one('str'), one('u64')
    out = list(S)
    out += [arr(), obj(), arr(arr()), arr(obj()), obj(arr()), obj(obj()), arr(arr(), arr()), arr(arr(N), arr(N, N))]
    out += [arr(x) for x in S] + [obj(x) for x in S]
    out += [arr(x, y) for x in S for y in S]
    out += [arr(x, y, z) for x in (X, B) for y in (X, B) for z in (X, B)]
    out += [arr(arr(x), x) for x in S] + [arr(x, arr(x)) for x in (X, B, U)] + [arr(obj(x), x) for x in (X, B, U)]
    out += [obj(arr(x)) for x in (X, B, U)] + [obj(obj(x)) for x in (X, B, U)] + [arr(*[U] * 17), arr(*[N] * 40)]
    out += [obj(U, X), obj(B, N), obj(X, arr(I)), obj(obj(), F)]
    d = N
    for i in range(24):
        d = arr(d)
    out.append(d)
    d = U
    for i in range(3):
        d = obj(d)
    out.append(d)
    if deep:
        out += [obj(x, y) for x in S for y in S if obj(x, y) not in out]
        out += [obj(B, X, B), obj(U, N, X), arr(obj(B), B, obj(X)), obj(arr(X, B), obj(B)), arr(*[B] * 5), arr(*[X] * 5), arr(obj(N, N), obj(N, N))]
        out += [arr(x, y, z) for x in S for y in S for z in S if not {x, y, z} <= {X, B}]
        d = X
        for i in range(40):
            d = arr(d)
        out.append(d)
    return out


def large():
    """containers of any number of elements"""
    A, M, E, F = 'garr', 'gmap', (('barr', None),), (('bmap', None),)
    return [E + (A, 'null', 'earr'), E + (A, 'u64', 'str', 'earr'), E + (A, 'earr'), E + E + (A, 'earr', 'i64', 'earr')], \
        [F + (M, 'key', 'bool', 'emap'), F + (M, 'key', 'str', 'key', 'blob', 'emap'), F + ('key',) + F + (M, 'emap', 'emap')]


def name(ops):
    return ' '.join(o if isinstance(o, str) else o[0] for o in ops)
