"""Generates Rust programs around enums written in the grammar of `tagged_box!`.

An enum is a dict: name, variants (list of (name, kind, fields)), kind in unit/tuple/struct, fields = list of
type keys (tuple) or of (field name, type key) (struct); optional: derive, vis, svis, trailing, wrap.
"""

# key -> (type, value 0, value 1)
TYPES = {
    'u8': ('u8', '0x11u8', '0xFFu8'),
    'u16': ('u16', '0x2233u16', '0x8000u16'),
    'u32': ('u32', '0x4455_6677u32', 'u32::MAX'),
    'u64': ('u64', '0x8899_AABB_CCDD_EEFFu64', '1u64 << 63'),
    'u128': ('u128', '0x0123_4567_89AB_CDEF_0011_2233_4455_6677u128', 'u128::MAX - 5'),
    'i8': ('i8', '-7i8', 'i8::MIN'),
    'i16': ('i16', '-300i16', 'i16::MAX'),
    'i32': ('i32', '-70_000i32', 'i32::MIN'),
    'i64': ('i64', '-5_000_000_000i64', 'i64::MAX'),
    'i128': ('i128', '-9i128', 'i128::MIN'),
    'usize': ('usize', '77usize', 'usize::MAX'),
    'isize': ('isize', '-78isize', 'isize::MIN'),
    'bool': ('bool', 'true', 'false'),
    'char': ('char', "'q'", "'\\u{10ffff}'"),
    'f32': ('f32', '1.25f32', 'f32::NEG_INFINITY'),
    'f64': ('f64', '-0.75f64', 'f64::MAX'),
    'String': ('String', 'String::from("first")', 'String::new()'),
    'str': ("&'static str", '"borrowed"', '""'),
    'Vec': ('Vec<u16>', 'vec![1u16, 2, 3]', 'Vec::new()'),
    'D': ('harness::probe::D', 'harness::probe::D::new(5)', 'harness::probe::D::new(6)'),
    'Al64': ('harness::probe::Al64', 'harness::probe::Al64(9)', 'harness::probe::Al64(250)'),
    'Packed': ('harness::probe::Packed', 'harness::probe::Packed(1, 0x0203_0405)', 'harness::probe::Packed(255, 0)'),
    'Zst': ('harness::probe::Zst', 'harness::probe::Zst', 'harness::probe::Zst'),
    'Zst16': ('harness::probe::Zst16', 'harness::probe::Zst16', 'harness::probe::Zst16'),
    'unit': ('()', '()', '()'),
    'pair': ('(u8, u32)', '(3u8, 4u32)', '(255u8, 0u32)'),
    'nested': ('((u8, String), [u16; 2])', '((1u8, String::from("n")), [7u16, 8])', '((0u8, String::new()), [0u16, 65535])'),
    'arr3': ('[u8; 3]', '[1u8, 2, 3]', '[255u8, 0, 255]'),
    'arrbig': ('[u64; 40]', '[0xABCDu64; 40]', '[u64::MAX; 40]'),
    'arr0': ('[u32; 0]', '[]', '[]'),
    'optbox': ('Option<Box<u32>>', 'Some(Box::new(31))', 'None'),
    'boxed': ('Box<(u8, String)>', 'Box::new((2u8, String::from("b")))', 'Box::new((0u8, String::new()))'),
    'boxslice': ('Box<[u8]>', 'vec![1u8, 2].into_boxed_slice()', 'Vec::new().into_boxed_slice()'),
    'boxstr': ('Box<str>', 'Box::<str>::from("boxed")', 'Box::<str>::from("")'),
    'rc': ('std::rc::Rc<String>', 'std::rc::Rc::new(String::from("rc"))', 'std::rc::Rc::new(String::new())'),
    'map': ('std::collections::BTreeMap<u8, Vec<String>>',
            '[(1u8, vec![String::from("m")]), (2, vec![])].into_iter().collect::<std::collections::BTreeMap<_, _>>()',
            'std::collections::BTreeMap::new()'),
    'result': ('Result<u8, String>', 'Ok(3u8)', 'Err(String::from("no"))'),
    'optnz': ('Option<std::num::NonZeroU64>', 'std::num::NonZeroU64::new(5)', 'None'),
    'fnptr': ('fn(u8) -> u8', '(super::support::twice as fn(u8) -> u8)', '(super::support::thrice as fn(u8) -> u8)'),
    'ptr': ('*const u8', '(0x1234usize as *const u8)', 'std::ptr::null()'),
    'slice': ("&'static [u8]", '(&[1u8, 2, 3] as &[u8])', '(&[] as &[u8])'),
    'cow': ("std::borrow::Cow<'static, str>", 'std::borrow::Cow::Borrowed("c")', 'std::borrow::Cow::Owned(String::from("o"))'),
    'dur': ('std::time::Duration', 'std::time::Duration::from_nanos(12_345)', 'std::time::Duration::ZERO'),
    'order': ('std::cmp::Ordering', 'std::cmp::Ordering::Less', 'std::cmp::Ordering::Greater'),
    'phantom': ('std::marker::PhantomData<String>', 'std::marker::PhantomData', 'std::marker::PhantomData'),
}
for i in range(1, 2049):
    TYPES['b%d' % i] = ('[u8; %d]' % i, '[%du8; %d]' % (i % 251 + 1, i), '[%du8; %d]' % ((i * 7) % 256, i))

SMALL = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i32', 'bool', 'char', 'f32', 'f64', 'String', 'str', 'Vec', 'D', 'Al64', 'Packed', 'Zst',
         'Zst16', 'unit', 'pair', 'arr3', 'optbox', 'fnptr']


def T(k):
    return TYPES[k][0]


def V(k, i):
    return TYPES[k][1 + i]


def by_macro(e):
    """The definition made by a macro of the user: every name and type is a fragment of its own."""
    params, args = [], []

    def p(kind, text):
        n = 'p%d' % len(params)
        params.append('$%s:%s' % (n, kind))
        args.append(text)
        return '$' + n
    c, en = p('ident', e.get('cont', 'Cont')), p('ident', e.get('enum', 'Item'))
    out = []
    for name, kind, fields in e['variants']:
        v = p('ident', name)
        if kind == 'tuple':
            v += '(%s)' % ', '.join(p('ty', T(k)) for k in fields)
        elif kind == 'struct':
            v += ' { %s }' % ', '.join('%s: %s' % (p('ident', f), p('ty', T(k))) for f, k in fields)
        out.append(v + ',')
    d = '#[derive(%s)] ' % ', '.join(e['derive']) if e.get('derive') else ''
    return 'macro_rules! make { (%s) => { tagged_box::tagged_box! { %spub struct %s, pub enum %s { %s } } } }\nmake!(%s);\n' % (
        '; '.join(params), d, c, en, ' '.join(out), '; '.join(args))


SHADOW = ('pub struct TaggedBox; pub struct TaggedPointer; pub struct Box; pub struct Vec; pub struct String; pub struct ManuallyDrop; pub struct Discriminant; pub struct PhantomData; '
          'pub struct Ordering; pub trait Into {} pub trait TaggableInner {} pub trait TaggableContainer {} pub trait Drop {} pub trait Try {} pub mod mem {} pub mod ptr {} pub mod fmt {} '
          'pub mod tagged_pointer {} pub mod discriminant {} pub fn drop() {} pub fn forget() {} pub const MAX_DISCRIMINANT: u8 = 0; pub fn read() {} pub fn new() {}\n')
# How the macro is called.
FORMS = {
    'import': lambda d: 'use tagged_box::tagged_box;\n' + d.replace('tagged_box::tagged_box!', 'tagged_box!'),
    'rename': lambda d: 'use tagged_box::tagged_box as define;\n' + d.replace('tagged_box::tagged_box!', 'define!'),
    'parens': lambda d: d.replace('tagged_box::tagged_box! {', 'tagged_box::tagged_box! (').rstrip()[:-1] + ');\n',
    'brackets': lambda d: d.replace('tagged_box::tagged_box! {', 'tagged_box::tagged_box! [').rstrip()[:-1] + '];\n',
    'line': lambda d: d.replace('\n', ' ') + '\n',
    'pair': lambda d: 'tagged_box::tagged_box! { pub struct Cont_, pub enum Item_ { A(u8), B { x: u8 }, } }\n' + d,
    'pass': lambda d: 'macro_rules! pass { ($($t:tt)*) => { $($t)* } }\npass! {\n%s\n}\n' % d,
    'shadow': lambda d: SHADOW + d,
    'local': lambda d: d,   # and all in a function body
    'anonymous': lambda d: d,   # and all in an unnamed constant
}


def forms(width):
    """The ways to call the macro, with variants of every shape."""
    base = [('A', 'tuple', ['u32']), ('B', 'tuple', ['u8', 'bool', 'i64']), ('U', 'unit', []), ('S', 'struct', [('x', 'u16'), ('y', 'D')]), ('E', 'tuple', []),
            ('O', 'tuple', ['optbox']), ('L', 'struct', [('z', 'u128')])]
    out = []
    for f in list(FORMS) + ['macro']:
        for i, c in enumerate(chunks(base, width)):
            for j, d in enumerate(([], ['Clone'])):
                # A type of a name that is shadowed is another type.
                if f == 'shadow':
                    c = [v for v in c if v[0] != 'O'] or base[:1]
                out.append(dict(name='fm_%s_%d_%d' % (f, i, j), variants=c, derive=d, form=f, trailing=j == 1))
    return out


def definition(e, macro=True):
    """The text between the braces, or the whole macro call."""
    f = e.get('form')
    if f:
        return by_macro(e) if f == 'macro' else FORMS[f](definition({k: v for k, v in e.items() if k != 'form'}))
    out = []
    for name, kind, fields in e['variants']:
        if kind == 'unit':
            out.append('%s,' % name)
        elif kind == 'tuple':
            out.append('%s(%s),' % (name, ', '.join(T(k) for k in fields)))
        else:
            comma = ',' if fields and e.get('trailing') else ''
            out.append('%s { %s%s },' % (name, ', '.join('%s: %s' % (f, T(k)) for f, k in fields), comma))
    attrs = ''.join('#[%s]\n' % a for a in e.get('attrs', []))
    d = e.get('derive', [])
    if d:
        attrs += '#[derive(%s)]\n' % ', '.join(d)
    svis, evis = e.get('svis', 'pub '), e.get('vis', 'pub ')
    return 'tagged_box::tagged_box! {\n%s%sstruct %s, %senum %s {\n%s\n}\n}\n' % (
        attrs, svis, e.get('cont', 'Cont'), evis, e.get('enum', 'Item'), '\n'.join(out))


def expr(e, v, k):
    name, kind, fields = v
    p = '%s::%s' % (e.get('enum', 'Item'), name)
    if kind == 'unit':
        return p
    if kind == 'tuple':
        return '%s(%s)' % (p, ', '.join(V(t, k) for t in fields))
    return '%s { %s }' % (p, ', '.join('%s: %s' % (f, V(t, k)) for f, t in fields))


def pattern(e, v, k):
    """A match arm that says whether the value is the one of pattern k."""
    name, kind, fields = v
    p = '%s::%s' % (e.get('enum', 'Item'), name)
    if kind == 'unit':
        return '%s => true,' % p
    keys = fields if kind == 'tuple' else [t for _, t in fields]
    b = ['__x%d' % i for i in range(len(keys))]
    test = ' && '.join('harness_same::<%s>(%s, &(%s))' % (T(t), x, V(t, k)) for x, t in zip(b, keys)) or 'true'
    if kind == 'tuple':
        return '%s(%s) => %s,' % (p, ', '.join(b), test)
    return '%s { %s } => %s,' % (p, ', '.join('%s: %s' % (f, x) for (f, _), x in zip(fields, b)), test)


def payload(e, v, k):
    name, kind, fields = v
    if kind != 'tuple':
        return None
    c = e.get('cont', 'Cont')
    if len(fields) == 1:
        return '%s::from(%s)' % (c, V(fields[0], k))
    return '%s::from((%s))' % (c, ', '.join(V(t, k) for t in fields) if len(fields) != 0 else '')


def probe(e):
    """impl Probe for the enum of this module."""
    item, cont = e.get('enum', 'Item'), e.get('cont', 'Cont')
    n = len(e['variants'])
    o = ['#[allow(unused)] fn harness_same<T: PartialEq>(a: &T, b: &T) -> bool { a == b }']
    o.append('impl harness::probe::Probe for %s {' % item)
    o.append('type C = %s; const N: usize = %d; const K: usize = %d;' % (cont, n, e.get('k', 2)))
    o.append('#[inline(never)] fn make(var: usize, k: usize) -> Self { match (var, k) {')
    for i, v in enumerate(e['variants']):
        for k in range(2):
            o.append('(%d, %s) => %s,' % (i, '0' if k == 0 else '_', expr(e, v, k)))
    o.append('_ => unreachable!() } }')
    o.append('#[inline(never)] fn same(&self, var: usize, k: usize) -> bool { match (var, k) {')
    for i, v in enumerate(e['variants']):
        for k in range(2):
            o.append('(%d, %s) => match self { %s #[allow(unreachable_patterns)] _ => false },' % (i, '0' if k == 0 else '_', pattern(e, v, k)))
    o.append('_ => unreachable!() } }')
    o.append('fn payload(var: usize, k: usize) -> ::core::option::Option<%s> { match (var, k) {' % cont)
    for i, v in enumerate(e['variants']):
        for k in range(2):
            p = payload(e, v, k)
            if p:
                o.append('(%d, %s) => ::core::option::Option::Some(%s),' % (i, '0' if k == 0 else '_', p))
    o.append('_ => ::core::option::Option::None } }')
    o.append('fn wrap(b: tagged_box::TaggedBox<Self>) -> %s { %s { value: b } }' % (cont, cont))
    o.append('fn unwrap(c: %s) -> tagged_box::TaggedBox<Self> { c.value }' % cont)
    o.append('fn tagged(c: &%s) -> &tagged_box::TaggedBox<Self> { &c.value }' % cont)
    if 'Clone' in e.get('derive', []):
        o.append('fn clone_box(b: &tagged_box::TaggedBox<Self>) -> ::core::option::Option<tagged_box::TaggedBox<Self>> { ::core::option::Option::Some(Clone::clone(b)) }')
        o.append('fn clone_cont(c: &%s) -> ::core::option::Option<%s> { ::core::option::Option::Some(Clone::clone(c)) }' % (cont, cont))
    o.append('}')
    return '\n'.join(o)


SUPPORT = '''
#[allow(unused)]
mod support {
    pub fn twice(x: u8) -> u8 { x.wrapping_mul(2) }
    pub fn thrice(x: u8) -> u8 { x.wrapping_mul(3) }
}
'''

HEAD = '''#![allow(warnings)]
#![recursion_limit = "2048"]
'''


def module(e):
    inner = {'local': 'fn inner(tag: &str, only: ::core::option::Option<&str>) {\n%s harness::probe::run::<%s>(tag, "%s", only) }\npub fn go(tag: &str, only: ::core::option::Option<&str>) { inner(tag, only) }',
             'anonymous': 'pub static GO: fn(&str, ::core::option::Option<&str>) = {\n%s fn go(tag: &str, only: ::core::option::Option<&str>) { harness::probe::run::<%s>(tag, "%s", only) } go };\n'
                          'pub fn go(tag: &str, only: ::core::option::Option<&str>) { GO(tag, only) }'}.get(e.get('form'))
    if inner:
        return 'pub mod %s {\n#![allow(warnings)]\n%s\n}\n' % (e['name'], inner % (definition(e) + probe(e), e.get('enum', 'Item'), e['name']))
    return 'pub mod %s {\n#![allow(warnings)]\n%s%s\npub fn go(tag: &str, only: ::core::option::Option<&str>) { harness::probe::run::<%s>(tag, "%s", only) }\n}\n' % (
        e['name'], definition(e), probe(e), e.get('enum', 'Item'), e['name'])


def main(calls):
    return '''
fn main() {
    let c = mc::cli::parse();
    let only = c.only.as_deref();
    let _ = only;
%s
    c.done();
}
''' % '\n'.join('    ' + x for x in calls)


def program(enums, tag, extra=None):
    """A program that takes each of the enums through every route. extra: function enum -> more calls."""
    calls = []
    for e in enums:
        call = '%s::go("%s", only);' % (e['name'], tag)
        calls.append('if only.map_or(true, |o| o.starts_with("%s/")) { %s }' % (e['name'], call))
    return HEAD + SUPPORT + ''.join(module(e) for e in enums) + main(calls)


# ------------------------------------------------------------------ families

def rot(n, start, types):
    return [types[(start + i) % len(types)] for i in range(n)]


MIX = ['u8', 'u64', 'u16', 'String', 'u32', 'D', 'u128', 'bool', 'Al64', 'i8', 'Vec', 'f64', 'arr3']


def arities(width, lo=0, hi=32):
    """One enum per arity, with a homogeneous and two heterogeneous tuples and structs of as many fields."""
    out = []
    for n in range(lo, hi + 1):
        vs = [('U', 'unit', [])]
        tuples = [['u8'] * n, rot(n, 0, MIX), rot(n, n, ['D', 'u16'])] if n else [[]]
        for i, t in enumerate(tuples):
            if t not in [x[2] for x in vs if x[1] == 'tuple']:
                vs.append(('T%d' % i, 'tuple', t))
        vs.append(('S0', 'struct', [('f%d' % i, 'u8') for i in range(n)]))
        vs.append(('S1', 'struct', [('f%d' % i, t) for i, t in enumerate(rot(n, 5, MIX))]))
        if width >= 61:
            cap = 1 << (64 - width)
            for j in range(0, len(vs), cap - 1 if cap > 2 else 1):
                out.append(dict(name='ar%d_%d' % (n, j), variants=vs[j:j + (cap - 1 if cap > 2 else 1)], derive=['Clone', 'PartialEq', 'Debug'], trailing=n % 2 == 1))
        else:
            out.append(dict(name='ar%d' % n, variants=vs, derive=['Clone', 'PartialEq', 'Debug'], trailing=n % 2 == 1))
    return out


def chunks(vs, width, most=24):
    cap = min(most, max(1, (1 << (64 - width)) - 1))
    return [vs[i:i + cap] for i in range(0, len(vs), cap)]


def grid(types, n, width, name, thorough=False):
    """All tuples and structs of n fields over an alphabet of types."""
    import itertools
    vs = []
    for i, c in enumerate(itertools.product(types, repeat=n)):
        vs.append(('T%d' % i, 'tuple', list(c)))
        vs.append(('S%d' % i, 'struct', [('f%d' % j, t) for j, t in enumerate(c)]))
    return [dict(name='%s%d_%d' % (name, n, i), variants=c, trailing=i % 2 == 0, derive=['Clone']) for i, c in enumerate(chunks(vs, width))]


# Shapes of a variant; the type of position p is taken from the position, so that tuple payloads differ.
POS = [('u8', 'u64', 'String'), ('u32', 'D', 'u16'), ('Vec', 'u128', 'bool'), ('i64', 'Al64', 'char')]
SHAPES = ['unit', 't0', 't1', 't2', 't3', 's0', 's1', 's2']


def shape(p, s):
    a, b, c = POS[p]
    name = 'V%d' % p
    return {
        'unit': (name, 'unit', []), 't0': (name, 'tuple', []), 't1': (name, 'tuple', [a]), 't2': (name, 'tuple', [a, b]),
        't3': (name, 'tuple', [a, b, c]), 's0': (name, 'struct', []), 's1': (name, 'struct', [('x', a)]),
        's2': (name, 'struct', [('x', b), ('y', a)]),
    }[s]


def sequences(width, most):
    import itertools
    cap = (1 << (64 - width)) - 1
    out = []
    for n in range(1, min(most, max(cap, 1)) + 1):
        for i, c in enumerate(itertools.product(SHAPES, repeat=n)):
            if c.count('t0') > 1:
                continue
            out.append(dict(name='sq%d_%d' % (n, i), variants=[shape(p, s) for p, s in enumerate(c)], trailing=i % 2 == 1))
    return out


NAMES = ['a', 'x1', '_u', 'Some', 'None', 'Ok', 'Err', 'Box', 'Vec', 'String', 'Option', 'Result', 'Self_', 'Cont', 'Item', 'Item2', 'From', 'Into',
         'TaggedBox', 'TaggableInner', 'TaggableContainer', 'var', 'tuple', 'variant', 'discrim', 'discriminant', 'tagged', 'callback', 'value', 'val',
         'from', 'into_inner', 'new', 'F', 'T', 'U', 'C', 'N', 'core', 'std', 'alloc', 'usize', 'u8', 'bool', 'str', 'union', 'auto', 'default', 'dyn_',
         'r#type', 'r#match', 'r#fn', 'ManuallyDrop', 'Discriminant', 'Drop', 'Clone', 'Copy', 'Send', 'main', 'this', 'output', 'Ünïcode', 'A_very_long_name_with_numbers_0123456789']
FIELDS = ['a', 'x1', '_u', 'var', 'tuple', 'variant', 'discrim', 'discriminant', 'tagged', 'callback', 'value', 'val', 'from', 'into_inner', 'new',
          'core', 'std', 'alloc', 'union', 'r#type', 'r#match', 'F', 'T', 'Item', 'Cont', 'this', 'rest', 'inner', 'counter', 'total_variants',
          'self_', 'u8', 'usize', 'str', 'boxed', 'pointer', 'ünï', 'ty', 'meta', 'crate_', 'result', 'ptr', 'layout', 'x', 'y', 'z']
ENUMS = ['Item', 'E', 'Value', 'Result', 'Option', 'Vec', 'String', 'Box', 'TaggedBox', 'TaggedPointer', 'F', 'T', 'Self_', 'item', 'core_', 'r#enum',
         'Drop', 'Into', 'Clone_', 'Ordering', 'Discriminant', 'Variant', 'Inner', 'Enum', 'Struct', 'Tagged', 'Counter', 'Container_']


def names(width):
    """Unusual names of variants, fields, enums and containers, in every shape."""
    out = []
    mk = lambda n, v, **k: dict(name=n, variants=v, derive=[], **k)
    vs = []
    for i, n in enumerate(NAMES):
        vs.append([(n, 'unit', []), ('Zz', 'tuple', ['u16'])])
        vs.append([(n, 'tuple', ['u16']), ('Zz', 'unit', [])])
        vs.append([('Zz', 'unit', []), (n, 'tuple', ['u16', 'String'])])
        vs.append([('Zz', 'unit', []), (n, 'struct', [('f', 'String'), ('g', 'u16')])])
    for i, n in enumerate(FIELDS):
        vs.append([('Zz', 'unit', []), ('Aa', 'struct', [(n, 'u16'), ('q0', 'String')])])
        vs.append([('Aa', 'struct', [('q0', 'D'), (n, 'u32'), ('q1', 'u8')])])
    for i, f in enumerate(FIELDS[:-3]):
        vs.append([('Aa', 'struct', [(n, 'u16') for n in FIELDS[i:i + 4]]), ('Zz', 'unit', [])])
    for i, v in enumerate(vs):
        if len(v) < 1 << (64 - width):
            out.append(mk('nm%d' % i, v))
    for i, n in enumerate(ENUMS):
        v = [('A', 'tuple', ['u64']), ('B', 'struct', [('f', 'arr3')])]
        if width == 63:
            v = v[:1]
        # The generated code names the enum, so types of the same name are written with their path.
        out.append(mk('en%d' % i, v, enum=n, cont='Kk'))
        out.append(mk('cn%d' % i, v, enum='Kk', cont=n))
    return out


def derives(width):
    base = [('A', 'tuple', ['u32']), ('B', 'tuple', ['u8', 'bool', 'i64']), ('U', 'unit', []), ('S', 'struct', [('x', 'u16'), ('y', 'char')]), ('E', 'tuple', [])]
    base = base[:(1 << (64 - width)) - 1]
    sets = [[], ['Debug'], ['Clone'], ['Clone', 'Copy'], ['PartialEq'], ['PartialEq', 'Eq'], ['PartialEq', 'PartialOrd'],
            ['Debug', 'Clone', 'Copy', 'PartialEq', 'Eq', 'PartialOrd', 'Ord'], ['Clone', 'Debug']]
    # A container may not be more visible than its enum, nor (for the probe) less.
    vis = [('', ''), ('pub ', 'pub '), ('pub(crate) ', 'pub(crate) '), ('pub(super) ', 'pub(super) '), ('pub(self) ', '')]
    out = []
    for i, d in enumerate(sets):
        for j, (s, v) in enumerate(vis):
            # The probe needs both types within their module only; it is called through a public one.
            out.append(dict(name='dv%d_%d' % (i, j), variants=base, derive=d, svis=s, vis=v, private=True,
                            attrs=[[], ['allow(dead_code)'], ['allow(dead_code)', 'allow(clippy::all)'], ['doc = "text"'], ['must_use']][j]))
    return out


def exotic(width):
    """Every type of the table, alone and next to others, in every shape."""
    out = []
    keys = [k for k in TYPES if not (k[0] == 'b' and k[1:].isdigit())]
    vs = []
    for k in keys:
        vs.append(('T_' + k, 'tuple', [k]))
        vs.append(('P_' + k, 'tuple', ['u8', k, 'u8']))
        vs.append(('S_' + k, 'struct', [('x', 'u8'), ('y', k)]))
    # Payload types of one enum must differ; P_u8 and T_u8 do.
    for i, c in enumerate(chunks(vs, width, 18)):
        out.append(dict(name='ex%d' % i, variants=c))
    return out


def counts(n, kind):
    """An enum of n variants: every one a unit, a tuple of one, a struct, or all shapes in turn."""
    vs = []
    for i in range(n):
        k = kind if kind != 'mixed' else ['unit', 'tuple', 'struct'][i % 3]
        name = 'V%d' % i
        if k == 'unit':
            vs.append((name, 'unit', []))
        elif k == 'tuple':
            vs.append((name, 'tuple', ['b%d' % (i + 1)] if i + 1 <= 2048 else ['u8']))
        else:
            vs.append((name, 'struct', [('x', 'u16'), ('y', 'b%d' % (i % 9 + 1))]))
    return vs


# ------------------------------------------------------------------ C16

PLAIN = ['u8', 'u64', 'u16', 'i64', 'u32', 'u128', 'bool', 'char', 'arr3', 'unit', 'i8', 'i16', 'i32', 'usize']
ALL = ['Debug', 'Clone', 'PartialEq', 'Eq', 'PartialOrd', 'Ord']


def unknowns(width, most=40):
    """Enums of 1 to most variants; their payloads are valid when all zero."""
    cap = 1 << (64 - width)
    out = []
    for n in sorted(set(range(1, min(most, cap - 1) + 1)) | ({cap - 1} if cap <= 256 else set())):
        vs = []
        for i in range(n):
            t = PLAIN[i % len(PLAIN)]
            s = ['unit', 'tuple', 'struct'][(i + n) % 3]
            if s == 'tuple':
                vs.append(('V%d' % i, s, [t] if i < len(PLAIN) else ['b%d' % (i + 3), t]))
            else:
                vs.append(('V%d' % i, s, [] if s == 'unit' else [('f', t), ('g', 'u8')]))
        out.append(dict(name='un%d' % n, variants=vs, derive=ALL))
    # One kind of variant only.
    for s in ('unit', 'tuple', 'struct'):
        for n in (1, 2, 3):
            if n < cap:
                out.append(dict(name='un%s%d' % (s, n), derive=ALL, variants=[
                    ('V%d' % i, s, [] if s == 'unit' else [PLAIN[i]] if s == 'tuple' else [('f', PLAIN[i])]) for i in range(n)]))
    return out


def unknown_program(enums):
    o = [HEAD, SUPPORT]
    calls = []
    for e in enums:
        o.append('pub mod %s {\n#![allow(warnings)]\n%s%s\nimpl ::core::fmt::Display for Item { fn fmt(&self, f: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result { f.write_str("item") } }\n'
                 'pub fn go(only: ::core::option::Option<&str>, thorough: bool) { harness::unknown::run::<Item>("C16", "%s", only, thorough) }\n}\n' % (e['name'], definition(e), probe(e), e['name']))
        calls.append('if c.only.as_deref().map_or(i %% c.shard.1 == c.shard.0, |o| o.starts_with("%s/")) { %s::go(c.only.as_deref(), c.thorough); } i += 1;' % (e['name'], e['name']))
    return ''.join(o) + '\nfn main() {\n let c = mc::cli::parse(); let mut i = 0;\n%s\n c.done();\n}\n' % '\n'.join(calls)


# Safe programs: a box made by `make`, read by `read`, within `#![forbid(unsafe_code)]`. Which of them compile is the question.
SAFE_MAKES = {
    'new': 'let b = TaggedBox::<Item>::new(0x11u128, {D});',
    'new_unchecked': 'let b = TaggedBox::<Item>::new_unchecked(0x11u128, {D});',
    'dangling': 'let b = TaggedBox::<Item>::dangling::<u128>({D});',
    'from_raw': 'let b = TaggedBox::<Item>::from_raw(Box::into_raw(Box::new(0x11u128)), {D});',
    'literal': 'let b = TaggedBox::<Item> { boxed: TaggedPointer::new(0, {D}), _marker: std::marker::PhantomData };',
    'from-pointer': 'let b: TaggedBox<Item> = TaggedPointer::new(0, {D}).into();',
    'from-word': 'let b: TaggedBox<Item> = 0u64.into();',
    'from-other': 'let b: TaggedBox<Item> = TaggedBox::<Other>::from(Other::B([0x11; 8], [0x11; 8]).into_tagged_box());',
    'other-enum': 'let b: TaggedBox<Item> = Other::B([0x11; 8], [0x11; 8]).into_tagged_box();',
    'field': 'let mut b: TaggedBox<Item> = Item::A(5).into_tagged_box(); b.boxed = TaggedPointer::new(0, {D});',
    'deref': 'let mut b: TaggedBox<Item> = Item::A(5).into_tagged_box(); *b = 0x11u128;',
    'as_mut_ref': 'let mut b: TaggedBox<Item> = Item::A(5).into_tagged_box(); *b.as_mut_ref::<u128>() = 0x11;',
    'as_mut_ptr': 'let mut b: TaggedBox<Item> = Item::A(5).into_tagged_box(); *b.as_mut_ptr::<u128>() = 0x11;',
    'set_discriminant': 'let mut b: TaggedBox<Item> = Item::A(5).into_tagged_box(); b.set_discriminant({D});',
    'default': 'let b: TaggedBox<Item> = Default::default();',
    'own': 'let b: TaggedBox<Item> = Item::A(5).into_tagged_box();',
}
SAFE_READS = {
    'from_tagged_box': 'drop(Item::from_tagged_box(b));',
    'clone': 'let _x = b.clone();',
    'eq': 'let _x = b == Item::A(5).into_tagged_box();',
    'cmp': 'let _x = b.cmp(&Item::A(5).into_tagged_box());',
    'debug': 'let _x = format!("{:?}", b);',
    'display': 'let _x = format!("{}", b);',
    'ref_from_tagged_box': 'Item::ref_from_tagged_box(&b, |_| ());',
    'container': 'let c = m::Cont { value: b }; let _x = c.into_inner();',
    'container-from': 'let c = m::Cont::from(b); let _x = c.into_inner();',
    'as_ref': 'let _x: &i64 = b.as_ref::<i64>();',
    'into_inner': 'let _x: i64 = TaggedBox::into_inner::<i64>(b);',
    'into_box': 'let _x: Box<i64> = TaggedBox::into_box::<i64>(b);',
    'twice': 'let _x = Item::from_tagged_box(b); let _y = Item::from_tagged_box(b);',
    'into-other': 'let _x: TaggedBox<Other> = b.into();',
    'other-reader': 'let _x = Other::from_tagged_box(b);',
}


# Nothing is wrong with these.
SAFE_FINE = {('own', r) for r in ('from_tagged_box', 'clone', 'eq', 'cmp', 'debug', 'display')}


def safe_program(make, read):
    return '''#![allow(warnings)]
#![forbid(unsafe_code)]
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
mod m {
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Cont, pub enum Item { A(u64), B([u8; 16]), }
    }
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct OtherCont, pub enum Other { A(u64), B([u8; 8], [u8; 8]), }
    }
    impl std::fmt::Display for Item { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("item") } }
}
use m::{Item, Other};
fn main() {
    // The discriminant of `Item::B`.
    let d = Item::B([0; 16]).into_tagged_box().discriminant();
    %s
    %s
}
''' % (SAFE_MAKES[make].replace('{D}', 'd'), SAFE_READS[read])


# ------------------------------------------------------------------ C21

CLASSES = {'Both': (True, True), 'SendOnly': (True, False), 'SyncOnly': (False, True), 'Neither': (False, False)}
C21_TYPES = '''
pub mod t {
    #[derive(Debug, Clone)] pub struct Both(pub u8);
    #[derive(Debug)] pub struct SendOnly(pub core::cell::Cell<u8>);
    #[derive(Debug)] pub struct SyncOnly(pub *const u8);
    unsafe impl Sync for SyncOnly {}
    #[derive(Debug)] pub struct Neither(pub *const u8);
}
'''


def c21(thorough=False):
    """(name, definition, send, sync) of enums with payloads of every class in every shape and position."""
    import itertools
    out = []
    cl = list(CLASSES)
    mk = lambda vs: 'tagged_box::tagged_box! { pub struct Cont, pub enum Item { %s } }' % ' '.join(vs)

    def add(vs, used):
        out.append(('a%d' % len(out), mk(vs), all(CLASSES[c][0] for c in used), all(CLASSES[c][1] for c in used)))
    # Tuples and structs of 0 to 3 fields, every class in every field.
    for n in range(0, 5 if thorough else 4):
        for c in itertools.product(cl, repeat=n):
            add(['V(%s),' % ', '.join('super::t::' + x for x in c)], c)
            add(['V { %s },' % ', '.join('f%d: super::t::%s' % (i, x) for i, x in enumerate(c))], c)
    # Two variants: every class and shape in each.
    for a, b in itertools.product(cl, repeat=2):
        for sa, sb in itertools.product(['t', 's', 'u'], repeat=2):
            def v(n, s, c):
                return '%s(super::t::%s),' % (n, c) if s == 't' else '%s { x: super::t::%s },' % (n, c) if s == 's' else '%s,' % n
            if (sa == 'u' and a != 'Both') or (sb == 'u' and b != 'Both'):
                continue
            if sa == sb == 't' and a == b:
                continue
            add([v('V0', sa, a), v('V1', sb, b)], [a, b])
    # One odd payload at every position of a long tuple or struct, and at every variant of several.
    for c in cl[1:]:
        for n in (range(4, 33) if thorough else (8, 16, 32)):
            for p in range(n):
                add(['V(%s),' % ', '.join('super::t::' + (c if i == p else 'Both') for i in range(n))], [c])
        for p in range(8):
            add([('V%d(super::t::%s, [u8; %d]),' % (i, c if i == p else 'Both', i + 1)) for i in range(8)], [c])
    return out


def c21_program(width, thorough=False):
    cap = (1 << (64 - width))
    defs = [d for d in c21(thorough) if d[1].count(' V') - 0 <= 10 and (d[1].count('V7') == 0 or cap > 8) and (d[1].count('V1') == 0 or cap >= 2)]
    o = ['#![allow(warnings)]\n', C21_TYPES, '''
pub struct P<T>(core::marker::PhantomData<T>);
pub struct Q<T>(core::marker::PhantomData<T>);
pub trait No { const YES: bool = false; }
impl<T> No for P<T> {}
impl<T> No for Q<T> {}
impl<T: Send> P<T> { pub const YES: bool = true; }
impl<T: Sync> Q<T> { pub const YES: bool = true; }
fn check(only: Option<&str>, name: &str, what: &str, got: bool, want: bool) {
    let case = format!("{name}/{what}");
    if only.map_or(false, |o| o != case) { return; }
    mc::report::begin_case(&case);
    mc::report::count("evaluations", 1);
    if got != want {
        mc::report::violation("C21", format!("{what} is {got} although for the enum it is {want}"));
    }
}
''']
    calls = []
    for name, d, send, sync in defs:
        o.append('pub mod %s { %s\n#[inline(never)] pub fn go(o: Option<&str>) { use super::No as _;\n'
                 'super::own("%s", super::P::<Item>::YES == %s && super::Q::<Item>::YES == %s);\n' % (name, d, name, str(send).lower(), str(sync).lower()))
        for what, ty in (('TaggedBox', 'tagged_box::TaggedBox<Item>'), ('Container', 'Cont')):
            o.append('super::check(o, "%s", "%s: Send", super::P::<%s>::YES, super::P::<Item>::YES);\n' % (name, what, ty))
            o.append('super::check(o, "%s", "%s: Sync", super::Q::<%s>::YES, super::Q::<Item>::YES);\n' % (name, what, ty))
        o.append('} }\n')
        calls.append('mc::report::count("distinct_nontrivial", 1); %s::go(c.only.as_deref());' % name)
    o.append('''
/// The enum itself has to be what its payloads make it, or the program does not test what it should.
fn own(name: &str, ok: bool) { assert!(ok, "the enum {name} has other auto traits than its payloads") }
/// A box of any other type has that type's traits too.
macro_rules! others { ($only:expr, $($t:ty),* $(,)?) => { $( {
    check($only, stringify!($t), "TaggedBox: Send", P::<tagged_box::TaggedBox<$t>>::YES, P::<$t>::YES);
    check($only, stringify!($t), "TaggedBox: Sync", Q::<tagged_box::TaggedBox<$t>>::YES, Q::<$t>::YES);
} )* } }
''')
    o.append('fn main() {\n let c = mc::cli::parse();\n%s\n others!(c.only.as_deref(), u8, String, (), *const u8, t::Both, t::SendOnly, t::SyncOnly, t::Neither, std::rc::Rc<u8>, '
             'std::cell::Cell<u8>, std::sync::MutexGuard<\'static, u8>, &\'static u8, &\'static std::cell::Cell<u8>, &\'static mut u8, Box<u8>, fn(), dyn_box);\n c.done();\n}\n'
             % '\n'.join(calls))
    o.append("#[allow(non_camel_case_types)] type dyn_box = Box<dyn Fn()>;\n")
    return ''.join(o), len(defs)


# ------------------------------------------------------------------ C23

def without_std(text, alloc=True):
    """Names of std as a program without std has to write them."""
    import re
    text = re.sub(r'\bstd::rc::', '::alloc::rc::', text)
    text = re.sub(r'\bstd::collections::', '::alloc::collections::', text)
    text = re.sub(r'\bstd::borrow::', '::alloc::borrow::', text)
    text = re.sub(r'\bstd::', '::core::', text)
    text = re.sub(r'(?<![:\w])vec!', '::alloc::vec!', text)
    text = re.sub(r'(?<![:\w])String\b', '::alloc::string::String', text)
    text = re.sub(r'(?<![:\w])Vec(?=<|::)', '::alloc::vec::Vec', text)
    return re.sub(r'(?<![:\w])Box(?=<|::)', '::alloc::boxed::Box', text)


CORE = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i64', 'i128', 'usize', 'isize', 'bool', 'char', 'f32', 'f64', 'str', 'D', 'Al64', 'Packed', 'Zst', 'Zst16', 'unit',
        'pair', 'arr3', 'arrbig', 'arr0', 'optnz', 'fnptr', 'ptr', 'slice', 'dur', 'order']


def port_enums(width, alloc):
    """Enums of every shape: with the types of alloc, or with those of core only."""
    cap = 1 << (64 - width)
    keys = [k for k in TYPES if not (k[0] == 'b' and k[1:].isdigit()) and (alloc or (k in CORE))]
    vs = []
    for k in keys:
        vs.append(('T_' + k, 'tuple', [k]))
        vs.append(('P_' + k, 'tuple', ['u8', k, 'u16']))
        vs.append(('S_' + k, 'struct', [('x', 'u8'), ('y', k)]))
    vs += [('U', 'unit', []), ('E', 'tuple', []), ('N', 'struct', [])]
    out = [dict(name='px%d' % i, variants=c) for i, c in enumerate(chunks(vs, width, 14))]
    mix = [k for k in MIX if alloc or k in CORE]
    for n in (0, 1, 2, 3, 4, 5, 8, 16, 31, 32):
        v = [('T', 'tuple', rot(n, n, mix)), ('S', 'struct', [('f%d' % i, t) for i, t in enumerate(rot(n, 1, mix))]), ('U', 'unit', [])][:cap - 1]
        out.append(dict(name='pa%d' % n, variants=v, derive=['Clone', 'Debug']))
    return out


def port_readable(width):
    v = [('A', 'tuple', ['u64']), ('B', 'struct', [('x', 'u8'), ('y', 'u128')]), ('C', 'unit', []), ('D', 'tuple', ['f64', 'u16']), ('E', 'tuple', ['str']), ('F', 'struct', [('f', 'f32')])]
    return dict(name='rd', variants=v[:(1 << (64 - width)) - 1], derive=['Clone', 'Debug', 'PartialEq', 'PartialOrd'])


def port_program(width, alloc):
    es = port_enums(width, alloc)
    rd = port_readable(width)
    o = ['#![no_std]\n#![no_main]\n#![allow(warnings)]\n#![recursion_limit = "2048"]\n', 'extern crate alloc;\n' if alloc else '', 'extern crate harness;\n', SUPPORT]
    calls = []
    for e in es + [rd]:
        o.append(without_std('pub mod %s {\n#![allow(warnings)]\n%s%s\n}\n' % (e['name'], definition(e), probe(e))))
        calls.append('harness::probe::run::<%s::Item>("%s");' % (e['name'], e['name']))
    return ''.join(o) + '''
#[no_mangle]
fn port_main(arg: &str) {
    if let Ok(i) = arg.parse::<usize>() {
        harness::explore::must_panic(i);
    }
    let deep = arg == "deep";
%s
    harness::explore::reading::<rd::Item>("rd");
    harness::explore::raw(deep);
    harness::explore::pointers(deep);
}
''' % '\n'.join('    ' + c for c in calls), len(es) + 1


def std_control(width, alloc):
    """The same enums in a program with std: it has to build, or nothing follows from the other one not building."""
    es = port_enums(width, alloc) + [port_readable(width)]
    return HEAD + SUPPORT + ''.join(module(e) for e in es) + main([])


# ---------------------------------------------------------------- C24: discriminants in constants

# How a constant is made from the expression {E} of type {T}.
CONST_FORMS = {
    'item': ('const X: {T} = {E};', 'let x = X;'),
    'static': ('static X: {T} = {E};', 'let x = &X;'),
    'block': ('', 'let x = const {{ {E} }};'),
    'assoc': ('struct S; impl S {{ const X: {T} = {E}; }}', 'let x = S::X;'),
    'array': ('static X: [{T}; 2] = [{E}, {E}];', 'let x = &X[1];'),
    'generic': ('const fn make<const D: Discriminant>() -> {T} {{ {D} }} static X: {T} = make::<{{ {N} as Discriminant }}>();', 'let x = &X;'),
    'trait': ('trait K {{ const X: {T} = {E}; }} struct S; impl K for S {{}}', 'let x = <S as K>::X;'),
    'length': ('const L: u64 = {{ let x: {T} = {E}; let d = x.discriminant() as u64; std::mem::forget(x); d }}; static Y: [u8; (L % 1000) as usize] = [0; (L % 1000) as usize];',
               'assert_eq!(Y.len() as u64, {N} % 1000); let x: {T} = {E};'),
}
CONST_MAKERS = {'pointer': ('TaggedPointer', 'TaggedPointer::dangling::<u32>({D})'), 'box': ('TaggedBox<Item>', 'TaggedBox::<Item>::dangling::<u32>({D})')}


def const_program(form, maker, n):
    """A program that exits with 0 if the discriminant in the constant is n, and with 5 if it is another."""
    ty, e = CONST_MAKERS[maker]
    items, stmt = CONST_FORMS[form]
    arg = dict(T=ty, E=e.format(D='%d as Discriminant' % n), D=e.format(D='D'), N=n)
    return '''#![allow(long_running_const_eval, overflowing_literals)]
use tagged_box::discriminant::Discriminant;
#[allow(unused_imports)]
use tagged_box::{TaggedBox, TaggedPointer};
tagged_box::tagged_box! {
    #[derive(Debug)]
    struct Cont, enum Item { U0, }
}
%s
fn main() {
    %s
    let d = x.discriminant() as u64;
    std::mem::forget(x);
    println!("{d}");
    std::process::exit(if d == %d { 0 } else { 5 })
}
''' % (items.format(**arg), stmt.format(**arg), n)
