"""fl integers against Python integers."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from flrun import *
from math import gcd
W = 64
def num(r):
    k = r.randrange(9)
    if k == 0: v = r.randrange(-10, 11)
    elif k == 1: v = r.getrandbits(r.choice([31, 32, 33, 62, 63, 64, 65]))
    elif k == 2: v = (1 << r.choice([31, 32, 62, 63, 64, 65, 95, 126, 127, 128, 129, 191, 192, 255, 256])) + r.choice([-2, -1, 0, 0, 1, 2])
    elif k == 3:      # words from the corner values
        v = 0
        for _ in range(r.randrange(1, 6)): v = (v << W) | r.choice([0, (1 << W) - 1, 1 << 63, (1 << 63) - 1, 1, r.getrandbits(W), 0xffffffff, 1 << 32, 0xffffffff00000000])
        if r.random() < .5: v -= 1 << (W * r.randrange(1, 6))
    elif k == 4: v = r.getrandbits(r.randrange(1, 900))
    elif k == 5: v = (1 << r.randrange(1, 500)) - (1 << r.randrange(0, 500))
    elif k == 6: v = r.randrange(-1 << 63, 1 << 63)
    elif k == 7: v = num(r) * num(r) + r.choice([-1, 0, 1])
    else: v = r.choice([10, 7, 16, 2]) ** r.randrange(1, 120)
    return -v if r.random() < .4 else v
def lit(r, v):
    """v as an fl expression"""
    a = abs(v); k = r.randrange(6)
    s = {0: '0x%x' % a, 1: '0b{0:b}'.format(a)}.get(k, str(a))
    return '(0-%s)' % s if v < 0 else s
def tf(b): return 'T' if b else 'F'
def strx(s): return '"%s"' % s
def fmt(r):
    v = num(r); e = lit(r, v); k = r.randrange(8)
    sg = '-' if v < 0 else ''
    if k == 0: return 'sprintf "%%d" %s' % e, strx('%d' % v)
    if k == 1: return 'sprintf "%%x" %s' % e, strx('%s%x' % (sg, abs(v)))
    if k == 2: return 'sprintf "%%o" %s' % e, strx('%s%o' % (sg, abs(v)))
    if k == 3: return 'int2str %s' % e, strx('%d' % v)
    if k == 4: return 'hd (sscanf "%%d" "%d")' % v, None
    if k == 5:
        if v == 0: return 'sprintf "%b" 0', strx('0')
        n = v.bit_length() + 1 if v > 0 else (-v - 1).bit_length() + 2 if False else 0
        if v > 0: return 'sprintf "%%b" %s' % e, strx('0{0:b}'.format(v))
        m = abs(v).bit_length() + 1
        return 'sprintf "%%b" %s' % e, strx('{0:b}'.format((1 << m) + v))
    if k == 6:
        w = r.randrange(1, 400); s = '%s%x' % (sg, abs(v))
        if v < 0 or len(s) > w: return 'sprintf "%%x" %s' % e, strx(s)
        return 'sprintf "%%%dx" %s' % (w, e), strx(s.rjust(w))
    return 'gen_str2int "%d"' % abs(v), str(abs(v))
def gen(r, fl):
    cs = []
    for _ in range(60):
        a, b = num(r), num(r)
        if r.random() < .15: b = r.choice([a, -a, a + 1, a - 1, -a - 1, ~a])
        if r.random() < .1: a = a * b + r.choice([-1, 0, 1])       # near-exact division
        A, B = lit(r, a), lit(r, b); k = r.randrange(17)
        if k == 0: cs.append(('(%s)+(%s)' % (A, B), is_(a + b)))
        elif k == 1: cs.append(('(%s)-(%s)' % (A, B), is_(a - b)))
        elif k in (2, 13): cs.append(('(%s)*(%s)' % (A, B), is_(a * b)))
        elif k in (3, 14): cs.append(('(%s)/(%s)' % (A, B), is_(a // b) if b else fails()))
        elif k in (4, 15): cs.append(('(%s)%%(%s)' % (A, B), is_(a % b) if b else fails()))
        elif k == 5: cs.append(('gcd (%s) (%s)' % (A, B), is_(gcd(a, b))))
        elif k == 6:
            o = r.randrange(3)
            cs.append(('(%s) %s (%s)' % (A, ('intAND', 'intOR', 'intXOR')[o], B), is_((a & b, a | b, a ^ b)[o])))
        elif k == 7: cs.append(('intNOT (%s)' % A, is_(~a)))
        elif k == 8:
            o = r.randrange(6)
            cs.append(('(%s)%s(%s)' % (A, ('<', '<=', '>', '>=', '=', '!=')[o], B), is_(tf((a < b, a <= b, a > b, a >= b, a == b, a != b)[o]))))
        elif k == 9: cs.append(('-(%s)' % A, is_(-a)))
        elif k == 10: cs.append((A, is_(a)))
        elif k == 11:
            c = num(r); C = lit(r, c)
            cs.append(('let f x y z = (x*y+z)*(x-z)-y*y in f (%s) (%s) (%s)' % (A, B, C), is_((a * b + c) * (a - c) - b * b)))
        else:
            e, x = fmt(r)
            if x is not None: cs.append((e, is_(x)))
    return cs
if __name__ == '__main__': sys.exit(main(gen))
