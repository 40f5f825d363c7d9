#!/usr/bin/env python3
"""Writes surface/src/shapes.rs: uses of the construction macros, with a description of each
that the simulator's model can be built from.  Run once; its output is committed."""
import random, os
R = random.Random(20240611)
N = 160
class G:
    def __init__(self): self.n = 0
    def id(self): self.n += 1; return self.n - 1
IDENTS = ['a', 'b', 'key', 'type_', 'x1', 'null', 'self_', '_u', 'foo', 'object', 'array', 'value']
LITS = ['"a"', '"b"', '""', '"with space"', '"quo\\"te"', '"key"', '"a-key-that-is-longer-than-the-inline-buffer-of-keys"', '"x1"', '"\\u{e9}"']
def leaf(g, legacy):
    """(text, description)"""
    k = R.choice('vvvcciisobflwpmq' if legacy else 'vvvcciisobflnwpmq')
    if k == 'n': return ('null', 'Sh::Null')
    if k == 'q':
        t, d = R.choice([('true', 'Sh::Bool(true)'), ('false', 'Sh::Bool(false)'), ('42', 'Sh::Int(42)'), ('-7', 'Sh::Int(-7)'), ('"text"', 'Sh::Str("text")'), ('0', 'Sh::Int(0)'),
            ('1 + 1', 'Sh::Int(2)'), ('"a string literal that does not fit inline"', 'Sh::Str("a string literal that does not fit inline")'), ('(5)', 'Sh::Int(5)'), ('json::Null', 'Sh::Null'), ('json::JsonValue::new_array()', 'Sh::Arr(&[])')])
        return (t, d)
    i = g.id()
    t = {'v': 'e.v(%d)', 'c': 'e.c(%d)', 'i': 'e.i(%d)', 's': 'e.s(%d)', 'o': 'e.o(%d)', 'b': 'e.b(%d)', 'f': 'e.f(%d)', 'l': 'e.l(%d)', 'w': 'e.t(%d)', 'p': 'e.i(%d) + 1', 'm': 'e.m(%d)'}[k] % i
    d = 'Sh::Leaf(Kind::%s, %d)' % ({'v': 'V', 'c': 'C', 'i': 'I', 's': 'S', 'o': 'O', 'b': 'B', 'f': 'F', 'l': 'L', 'w': 'S', 'p': 'Inc', 'm': 'M'}[k], i)
    if R.random() < .15: t = '(%s)' % t
    return (t, d)
def value(g, depth, legacy=False):
    r = R.random()
    if depth <= 0 or r < .45: 
        t, d = leaf(g, legacy)
        return (t, d)
    if r < .72: return array(g, depth - 1, bare=not legacy)
    return obj(g, depth - 1, bare=not legacy)
def width(): return R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
def array(g, depth, bare, top=False):
    n = width() + (R.randint(1, 3) if top else 0)
    it = [value(g, depth) for _ in range(n)]
    body = ', '.join(t for t, _ in it) + (', ' if it and R.random() < .35 else '')
    d = 'Sh::Arr(&[%s])' % ', '.join(d for _, d in it)
    if bare and R.random() < .85: return ('[%s]' % body, d)
    o, c = R.choice(['[]', '()', '{}'])
    return ('json::array!%s%s%s' % (o, body, c), d)
def obj(g, depth, bare, top=False):
    n = width() + (R.randint(1, 3) if top else 0)
    legacy = (not bare or R.random() < .2) and n > 0 and R.random() < .6
    ent = []; ds = []
    for _ in range(n):
        r = R.random()
        if r < (.45 if not legacy else .0): k = R.choice(IDENTS); kt = k; kd = 'Ky::Is("%s")' % k
        elif r < .75: k = R.choice(LITS); kt = k; kd = 'Ky::Is(%s)' % k
        else:
            i = g.id(); kt = 'e.k(%d)' % i; kd = 'Ky::Made(%d)' % i
            if not legacy: kt = '[%s]' % kt
        t, d = value(g, depth, legacy)
        ent.append(('%s => %s' if legacy else '%s: %s') % (kt, t)); ds.append('(%s, %s)' % (kd, d))
    body = ', '.join(ent) + (', ' if ent and R.random() < .35 else '')
    d = 'Sh::Obj(&[%s])' % ', '.join(ds)
    if bare and not legacy and R.random() < .85: return ('{%s}' % body, d)
    o, c = R.choice(['[]', '()', '{}'])
    return ('json::object!%s%s%s' % (o, body, c), d)
out = ['// Written by tools/gen_shapes.py.', 'use super::{Ky, Kind, Leaves, Sh, Shape};', 'use json::JsonValue;', '']
tab = []
def emit(t, d):
    i = len(tab)
    out.append('#[inline(never)] #[allow(unused)] fn s%d(e: &dyn Leaves) -> JsonValue { %s }' % (i, t))
    tab.append('    Shape { text: %s, build: s%d, is: %s },' % ('r####"%s"####' % t, i, d))
# hand-written ones first
emit('json::array![]', 'Sh::Arr(&[])')
emit('json::object!{}', 'Sh::Obj(&[])')
emit('json::value!(null)', 'Sh::Null')
emit('json::value!([e.v(0), {a: e.v(1)}])', 'Sh::Arr(&[Sh::Leaf(Kind::V, 0), Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 1))])])')
emit('json::value!({a: e.v(0), "b": [e.i(1)]})', 'Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("b"), Sh::Arr(&[Sh::Leaf(Kind::I, 1)]))])')
emit('json::value!(e.v(0))', 'Sh::Leaf(Kind::V, 0)')
t, d = 'e.v(0)', 'Sh::Leaf(Kind::V, 0)'
for _ in range(8): t = '[%s]' % t; d = 'Sh::Arr(&[%s])' % d
emit('json::array!%s' % t, d)
t, d = 'e.c(0)', 'Sh::Leaf(Kind::C, 0)'
for _ in range(6): t = '{a: %s}' % t; d = 'Sh::Obj(&[(Ky::Is("a"), %s)])' % d
emit('json::object!%s' % t, d)
emit('json::array![%s]' % ', '.join('e.i(%d)' % i for i in range(24)), 'Sh::Arr(&[%s])' % ', '.join('Sh::Leaf(Kind::I, %d)' % i for i in range(24)))
emit('json::object!{%s}' % ', '.join('[e.k(%d)]: e.v(%d)' % (2 * i, 2 * i + 1) for i in range(10)), 'Sh::Obj(&[%s])' % ', '.join('(Ky::Made(%d), Sh::Leaf(Kind::V, %d))' % (2 * i, 2 * i + 1) for i in range(10)))
emit('json::object!{%s}' % ', '.join('e.k(%d) => e.c(%d)' % (2 * i, 2 * i + 1) for i in range(5)), 'Sh::Obj(&[%s])' % ', '.join('(Ky::Made(%d), Sh::Leaf(Kind::C, %d))' % (2 * i, 2 * i + 1) for i in range(5)))
# a key written twice: the first position, the last value
emit('json::object!{a: e.v(0), b: e.v(1), a: e.v(2),}', 'Sh::Obj(&[(Ky::Is("a"), Sh::Leaf(Kind::V, 0)), (Ky::Is("b"), Sh::Leaf(Kind::V, 1)), (Ky::Is("a"), Sh::Leaf(Kind::V, 2))])')
while len(tab) < N:
    g = G(); d0 = R.choice([1, 2, 2, 3, 3, 4])
    t, d = (array if R.random() < .5 else obj)(g, d0, False, True)
    if len(t) > 1500: continue
    emit(t, d)
out.append('')
out.append('pub static SHAPES: &[Shape] = &['); out += tab; out.append('];')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'surface', 'src', 'shapes.rs')
open(p, 'w').write('\n'.join(out) + '\n')
print(len(tab), 'shapes')
