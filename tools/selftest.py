"""developer aid: engine totality. For random concrete inputs, at least one exit partition of each entry point must admit the input
(a partition lost by the interpreter would make every check vacuous there).  usage: selftest.py DRIVER [heap]"""
import os, random, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', d) for d in ('engine', 'checks')]
from core import *
import ev


def docs(kind, rnd):
    while True:
        if kind == 'zera':
            n = rnd.choice([16, 20, 36, 52, 68, 100, 128])
            env = rnd.choice([16, 32, 48, 28, 60])
            ao = (20 + env + 15) // 16 * 16
            n = max(n, ao + rnd.choice([0, 16, 32])) if rnd.random() < .9 else n
            b = bytearray(rnd.choice([0, 0, 0, 1, 2, 4, 7, 8, 16, 255, rnd.randrange(256)]) for _ in range(n))
            hdr = bytes.fromhex('5a454e5601000100') + rnd.choice([0, 0, 16, 32]).to_bytes(4, 'little') + env.to_bytes(4, 'little') + ao.to_bytes(4, 'little')
            if rnd.random() < .95:
                b[:20] = hdr[:min(20, n)]
                if n > 60:
                    b[20 + int.from_bytes(hdr[8:12], 'little')] = rnd.randrange(9)
        else:
            n = rnd.randrange(0, 24)
            b = bytearray(rnd.choice([rnd.randrange(256), rnd.randrange(256), 0x92, 0x81, 0xa1, 0, 1, 2, 0xdc, 0xd9, 0xc4, 0xde, 0xcf, 0xd3]) for _ in range(n))
        yield bytes(b)


def main():
    drv, heap = sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == 'heap'
    c = Ctx('X')
    m = c.compile(drv, heap=heap)
    rnd = random.Random(7)
    lost = 0
    for name in sorted(x for x in m.funcs if x.startswith('drv_')):
        eng = run_entry(m, name, {'call': sink_hook})
        g = docs('zera' if 'zera' in drv else 'mp', rnd)
        bad = 0
        for k in range(60):
            b = next(g)
            ok = False
            for e in eng.exits:
                st = e.st.copy()
                f = st.facts
                f.add_eq(eng.syms['in'] - len(b))
                for i, x in enumerate(b):
                    f.add_eq(atom(T.get('byte', ('in', Lin(i)), 0, 255)) - x)
                    if f.dead:
                        break
                if not f.dead and not f.infeasible():
                    ok = True
                    break
            if not ok:
                bad += 1
                if bad == 1:
                    print('LOST', name, b.hex())
        lost += bad
        print(name, len(eng.exits), 'lost', bad, flush=True)
    print('total lost', lost)


main()
