"""Assumed contracts of the file-system calls: every call is an event, every fallible call may fail (an undetermined result)."""
from engine.spec import *
from engine.stdm import ok, err, some, NONE
from engine.values import UNIT

def res(ex, st, v):
    """an io::Result: Ok(v) or Err, undetermined"""
    ex.nio = getattr(ex, 'nio', 0) + 1
    return En(ivar('io%d' % ex.nio, (0, 1)), {0: (v,), 1: (Opq('ioerror'),)}, None)

def follow(ex, st, v, n=8):
    """through references to the value"""
    while type(v) is Ptr and v.meta is None and n:
        w = ex.load(st, v); n -= 1
        if type(w) is Ptr or type(force(w)) in (Opq, Str): v = force(w) if type(w) is not Ptr else w
        else: return w
    return v
def key(ex, st, v):
    v = follow(ex, st, v)
    if type(v) is Opq and v.tag in ('path', 'file', 'bufwriter', 'writer', 'bufreader'): return v.info if v.info is not None else v.tag
    if type(v) is Str: return v.s
    raise Unsupported('unknown path or file %r' % (v,))

def fs(facts):
    """facts: {'exists': {path: bool}, 'json': {path: bool}, 'value': handler(ex, st, type name) for decoding}"""
    K = {}
    def on(*paths):
        def d(h):
            for p in paths: K[p] = h
            return h
        return d
    @on('std::path::Path::exists', 'std::path::Path::is_file', 'std::fs::exists')
    def _(ex, st, a, f, w):
        k = key(ex, st, a[0]); v = facts['exists'].get(k, False)
        return [(st, v)]
    @on('std::path::Path::new')
    def _(ex, st, a, f, w): return [(st, Opq('path', key(ex, st, a[0])))]
    @on('std::path::Path::with_extension', 'std::path::Path::with_file_name')
    def _(ex, st, a, f, w): return [(st, Opq('path', key(ex, st, a[0]) + '+' + f['path'].rsplit('_', 1)[-1]))]
    @on('std::path::Path::to_path_buf', 'std::path::Path::display', 'std::path::PathBuf::as_path')
    def _(ex, st, a, f, w): return [(st, Opq('path', key(ex, st, a[0])))]
    @on('std::path::Path::extension')
    def _(ex, st, a, f, w): return [(st, some(Str('json' if facts['json'].get(key(ex, st, a[0])) else 'bin')))]
    @on('std::fs::rename')
    def _(ex, st, a, f, w):
        ex.event(st, 'rename', key(ex, st, a[0]), key(ex, st, a[1])); return [(st, res(ex, st, UNIT))]
    @on('std::fs::copy')
    def _(ex, st, a, f, w):
        ex.event(st, 'copy', key(ex, st, a[0]), key(ex, st, a[1])); return [(st, res(ex, st, ivar('copied', ())))]
    @on('std::fs::remove_file')
    def _(ex, st, a, f, w):
        ex.event(st, 'remove', key(ex, st, a[0])); return [(st, res(ex, st, UNIT))]
    @on('std::fs::File::create')
    def _(ex, st, a, f, w):
        k = key(ex, st, a[0]); ex.event(st, 'create', k); return [(st, res(ex, st, Opq('file', k)))]
    @on('std::fs::File::open')
    def _(ex, st, a, f, w):
        k = key(ex, st, a[0]); return [(st, res(ex, st, Opq('file', k)))]
    @on('std::io::BufWriter::<W>::new', 'std::io::BufWriter::<W>::with_capacity', 'std::io::BufReader::<R>::new')
    def _(ex, st, a, f, w): return [(st, Opq('bufwriter' if 'Writer' in f['path'] else 'bufreader', key(ex, st, a[-1])))]
    @on('std::io::Write::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data')
    def _(ex, st, a, f, w):
        if 'Stdout' in f['name']: return [(st, res(ex, st, UNIT))]
        ex.event(st, 'flush', key(ex, st, a[0])); return [(st, res(ex, st, UNIT))]
    @on('std::io::Write::write')
    def _(ex, st, a, f, w):
        ex.event(st, 'some', key(ex, st, a[0]), follow(ex, st, a[1])); return [(st, res(ex, st, ivar('written', ())))]
    @on('std::io::Write::write_all')
    def _(ex, st, a, f, w):
        ex.event(st, 'all', key(ex, st, a[0]), follow(ex, st, a[1])); return [(st, res(ex, st, UNIT))]
    @on('posidonius::bincode::serialize_into')
    def _(ex, st, a, f, w):
        ex.event(st, 'all', key(ex, st, a[0]), Opq('bincode', follow(ex, st, a[1]))); return [(st, res(ex, st, UNIT))]
    @on('posidonius::serde_json::to_writer', 'posidonius::serde_json::to_writer_pretty')
    def _(ex, st, a, f, w):
        ex.event(st, 'all', key(ex, st, a[0]), Opq('json', follow(ex, st, a[1]))); return [(st, res(ex, st, UNIT))]
    @on('posidonius::serde_json::to_string_pretty', 'posidonius::serde_json::to_string', 'posidonius::serde_json::to_vec', 'posidonius::serde_json::to_vec_pretty', 'posidonius::bincode::serialize')
    def _(ex, st, a, f, w): return [(st, res(ex, st, Opq('bincode' if 'bincode' in f['path'] else 'json', follow(ex, st, a[0]))))]
    @on('std::string::String::as_bytes', 'core::str::<impl str>::as_bytes')
    def _(ex, st, a, f, w): return [(st, follow(ex, st, a[0]))]
    @on('std::hash::Hash::hash')
    def _(ex, st, a, f, w): return [(st, UNIT)]
    @on('std::hash::DefaultHasher::new')
    def _(ex, st, a, f, w): return [(st, Opq('hasher'))]
    @on('std::hash::Hasher::finish')
    def _(ex, st, a, f, w): return [(st, ivar('hash', ()))]
    # the history file
    @on('std::fs::OpenOptions::new', 'std::fs::File::options')
    def _(ex, st, a, f, w): return [(st, Opq('options', ()))]
    def opt(name):
        def h(ex, st, a, f, w):
            if type(a[0]) is Ptr:
                o = ex.load(st, a[0]); ex.store(st, a[0], Opq('options', tuple(o.info) + ((name, a[1]),)))
            else: raise Unsupported('options')
            return [(st, a[0])]
        return h
    for n in ('create', 'write', 'append', 'read', 'truncate', 'create_new'): K['std::fs::OpenOptions::' + n] = opt(n)
    @on('std::fs::OpenOptions::open')
    def _(ex, st, a, f, w):
        o = follow(ex, st, a[0]); k = key(ex, st, a[1]); ex.event(st, 'open', k, dict(o.info)); return [(st, res(ex, st, Opq('file', k)))]
    @on('std::fs::File::metadata', 'std::fs::metadata')
    def _(ex, st, a, f, w): return [(st, res(ex, st, Opq('meta', key(ex, st, a[0]))))]
    @on('std::fs::Metadata::len')
    def _(ex, st, a, f, w): return [(st, facts['len'])]
    @on('std::fs::File::set_len')
    def _(ex, st, a, f, w):
        ex.event(st, 'set_len', key(ex, st, a[0]), a[1]); return [(st, res(ex, st, UNIT))]
    return K
