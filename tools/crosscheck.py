#!/usr/bin/env python3
"""Compares the reference model (mc/ref) with CPython's decimal (libmpdec) over
an enumerated subspace: (cd mc && go run ./xcheck) | python3 tools/crosscheck.py"""
import sys, collections
import decimal as D
ROUND = dict(HalfEven=D.ROUND_HALF_EVEN, HalfUp=D.ROUND_HALF_UP, Down=D.ROUND_DOWN, Up=D.ROUND_UP,
             Floor=D.ROUND_FLOOR, Ceiling=D.ROUND_CEILING, HalfDown=D.ROUND_HALF_DOWN)
# bits of ref.Cond that python's decimal reports as its own signals
BITS = [(0, D.Clamped), (2, D.DivisionByZero), (5, D.Inexact), (8, D.InvalidOperation), (9, D.Overflow),
        (10, D.Rounded), (11, D.Subnormal), (12, D.Underflow)]
assert D.__name__ == 'decimal' and hasattr(D, 'HAVE_THREADS'), 'needs the C implementation'
n = bad = 0
kinds = collections.Counter()
ctxs = {}
for line in sys.stdin:
    f = line.split()
    op, key, res, flags, args = f[0], tuple(f[1:5]), f[5], int(f[6]), f[7:]
    c = ctxs.get(key)
    if c is None:
        c = ctxs[key] = D.Context(prec=int(key[0]), Emax=int(key[1]), Emin=int(key[2]), rounding=ROUND[key[3]], traps=[], clamp=0)
    c.clear_flags()
    a = [D.Decimal(x) for x in args]
    if op == 'quantize':
        r = c.quantize(a[0], D.Decimal((0, (1,), int(args[1]))))
    elif op == 'fix':
        r = c.plus(a[0]) if not (a[0].is_zero()) else c.create_decimal(a[0])
    else:
        r = getattr(c, op)(*a)
    n += 1
    want = 0
    for bit, sig in BITS:
        if c.flags[sig]:
            want |= 1 << bit
    if op in ('next_plus', 'next_minus', 'compare', 'exp', 'ln', 'log10'):
        want = flags = 0
    flags &= sum(1 << b for b, _ in BITS)
    rr = D.Decimal(res)
    same = (r.is_nan() and rr.is_nan()) or r.as_tuple() == rr.as_tuple()
    if op in ('exp', 'ln', 'log10'):
        same = r == rr
    if not same or want != flags:
        bad += 1
        kinds[op, same, want ^ flags] += 1
        if kinds[op, same, want ^ flags] <= 3:
            print('DIFF', line.strip(), '| python', r, want)
print(n, 'compared,', bad, 'differ', dict(kinds))
sys.exit(1 if bad else 0)
