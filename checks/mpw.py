"""Writer calls of the MsgPack protocol: msgpack-c's buffer is taken as specified (append, or fail and leave it alone)."""
from core import *
import models


def append_hook(failing):
    """msgpack_sbuffer_write(sbuf, p, n) -> 0 with the bytes appended, or -1 with nothing changed (if `failing`)"""
    def hook(eng, F, st, ins, callee, args):
        if callee.startswith('sink_'):
            st.event((callee,) + tuple(args) + (ins,))
            return [('ret', st, None, None)]
        if 'msgpack_sbuffer_write' not in callee:
            return None
        out = []
        if failing:
            s2 = st.copy()
            s2.event(('append failed', ins))
            out.append(('ret', s2, Lin((1 << 32) - 1), None))
        p, n = args[1], st.facts.norm(eng.as_lin(st, args[2]))
        size = eng.as_lin(st, eng.load(st, args[0], 'i64', ins))
        data = eng.load(st, args[0] + 8, 'p', ins)
        new = st.facts.norm(size + n)
        r = models.m_zvgrow(eng, F, st, ins, 'realloc', [data, ZERO, new]) if not (n.is_const() and n.c == 0) else [('ret', st, data, None)]
        for k, s, v, _ in r:
            if not (n.is_const() and n.c == 0):
                eng.memcpy(s, v + size, p, n, ins, callee)
            eng.store(s, args[0], new, 'i64', ins)
            eng.store(s, args[0] + 8, v, 'p', ins)
            eng.store(s, args[0] + 16, new, 'i64', ins)
            out.append(('ret', s, ZERO, None))
        return out
    return hook
