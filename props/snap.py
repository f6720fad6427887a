"""Snapshot round trip: for every type T of the saved state, decode(encode(x)) = x, proved type by type: the derived code of T is
executed with the codecs of its component types replaced by their contract (decode(encode(y)) = y)."""
from engine.spec import *
from props.lib import *
from props.intg import *
from engine.stdm import ok, err

SER = 'posidonius::serde::Serialize::serialize'; DE = 'posidonius::serde::Deserialize::deserialize'
PRIM = ('float', 'int', 'bool')
class Mismatch(Exception): pass

def components(m, ty, out):
    """types of the values inside a value of this type"""
    t = m.types[ty]
    if ty in out: return
    out.append(ty)
    if t['k'] in ('struct', 'enum'):
        if t['dn'].startswith('posidonius'):
            for v in t['vs']:
                for _, f in v['f']: components(m, f, out)
        else:
            for a in t.get('args', ()): 
                if isinstance(a, int): components(m, a, out)
    elif t['k'] == 'tuple':
        for e in t['es']: components(m, e, out)
    elif t['k'] in ('array', 'slice', 'ref'): components(m, t['e'], out)

def local(m, ty): return m.types[ty]['k'] in ('struct', 'enum') and m.types[ty]['dn'].startswith('posidonius')

def codec(c, ty):
    """the monomorphic encoder and decoder of this type for the binary snapshots"""
    m = c.mir; S = D = None
    for F in m.fns.values():
        if not F.local: continue
        if ' posidonius::serde::Serialize for ' in F.name and '>::serialize::<&mut posidonius::bincode::Serializer<' in F.name and '__SerializeWith' not in F.name:
            t = m.types[F.locals[1]]
            if t['k'] == 'ref' and t['e'] == ty: S = F
        elif ' posidonius::serde::Deserialize<' in F.name and '>::deserialize::<&mut posidonius::bincode::Deserializer<' in F.name and F.argc == 1:
            t = m.types[F.locals[0]]
            if t['n'].startswith('std::result::Result') and t['args'][0] == ty: D = F
    return S, D

def is_leaf(m, ty): return m.types[ty]['k'] in PRIM or local(m, ty) and '::_::<impl' not in m.types[ty]['n'] and '__SerializeWith' not in m.types[ty]['n'] and '__DeserializeWith' not in m.types[ty]['n']

def contracts(c, queue):
    m = c.mir
    def ser(ex, st, args, f, where):
        ty = f['targs'][0]
        if not is_leaf(m, ty): return NotImplemented
        queue.append(('val', ty, ex.load(st, args[0])))
        return [(st, ok(UNIT))]
    def pop(kind, ty=None):
        if pos[0] >= len(queue): raise Mismatch('the decoder reads more than the encoder wrote')
        q = queue[pos[0]]; pos[0] += 1
        if q[0] != kind or ty is not None and q[1] != ty: raise Mismatch('item %d: the decoder reads %s %s, the encoder wrote %s %s' % (pos[0], kind, m.types[ty]['n'] if isinstance(ty, int) else ty, q[0], m.types[q[1]]['n'] if q[0] == 'val' else q[1]))
        return q[2]
    def de(ex, st, args, f, where):
        ty = f['targs'][0]
        if not is_leaf(m, ty): return NotImplemented
        return [(st, ok(pop('val', ty)))]
    pos = [0]
    def decode(ty):
        if is_leaf(m, ty): return pop('val', ty)
        t = m.types[ty]
        if t['k'] == 'array': return Agg(tuple(decode(t['e']) for _ in range(t['len'])))
        raise Unsupported('element type ' + t['n'])
    def big(ex, st, args, f, where): return [(st, ok(decode(f['targs'][0])))]
    K = {SER: ser, DE: de, 'posidonius::serde_big_array::BigArray::deserialize': big}
    for k in ('u8', 'u16', 'u32', 'u64'):
        def w(ex, st, args, f, where, k=k):
            queue.append(('raw', k, args[1])); return [(st, ok(UNIT))]
        def r(ex, st, args, f, where, k=k):
            return [(st, ok(pop('raw', k)))]
        K['posidonius::bincode::byteorder::WriteBytesExt::write_' + k] = w
        K['posidonius::bincode::byteorder::ReadBytesExt::read_' + k] = r
    return K, pos

def roundtrip(c, ty, variant=None, ov=None, tag=''):
    m = c.mir; t = m.types[ty]; what = t['n'] + ('::' + t['vs'][variant]['n'] if variant is not None else '') + tag
    S, D = codec(c, ty)
    if S is None or D is None: raise Skip('no encoder or decoder of %s' % t['n'])
    queue = []
    K, pos = contracts(c, queue)
    o = {'x.$': t['vs'][variant]['n']} if variant is not None else {}
    o.update(ov or {})
    r = Run(c, S, what, ov=o, contracts=K)
    x = r.root('x', ty)
    r.args = [x, Opq('serializer')]
    r.go()
    c.ob('encode %s: always succeeds' % what, [], len(r.results) == 1 and force(r.results[0][1]).d == 0, run=None)
    if len(r.results) != 1: return
    r2 = Run(c, D, what, contracts=K); r2.args = [Opq('deserializer')]
    try: r2.go()
    except Mismatch as e:
        c.ob('decode %s: reads what was written (%s)' % (what, e), [], False); return
    good = len(r2.results) == 1 and force(r2.results[0][1]).d == 0
    c.ob('decode %s: succeeds' % what, [], good)
    if not good: return
    c.ob('decode %s: reads everything that was written' % what, [], pos[0] == len(queue))
    s, v = r2.results[0]
    got = force(v).pay[0][0]
    cell = r.ex.new_cell(s, got); r.roots = {'x': (cell, ty, r.roots['x'][2])}
    r.results = [(s, None)]
    r.frame({})
