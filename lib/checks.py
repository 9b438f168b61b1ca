"""One function per property: what is built, what is explored, what is counted."""
import os
import re
import shutil

import builds
import progs
from engine import CPUS, Ctx, HarnessError, REPO, TARGET, VERIF, WIDTHS, WORK, base_env, tail_of  # noqa: F401

CHECKS = {}


def check(f):
    def go(tier):
        ctx = Ctx(f.__name__, tier)
        level, cov, assume = f(ctx)
        return ctx.finish(level, cov, assume)
    CHECKS[f.__name__] = go
    return f


def inputs(rule):
    def cov(c):
        d = dict(evaluations=c.counters.get('evaluations', 0), distinct_nontrivial=c.counters.get('distinct_nontrivial', 0), rule=rule)
        d.update({k: v for k, v in c.counters.items() if k not in d})
        return d
    return cov


def histories(c):
    k = c.counters
    d = dict(states=k.get('states', 0), transitions=k.get('transitions', 0) + k.get('dfs_operations', 0),
             traces_validated_against_impl=k.get('histories', 0))
    d.update({x: v for x, v in k.items() if x not in d and x not in ('histories', 'transitions')})
    d['bfs_transitions'] = k.get('transitions', 0)
    return d


REAL = 'every execution is of the real crate, built from /repo\'s working tree by the installed rustc'
ALPHA = 'bounded to the stated alphabets of values and the stated depth'

# ---------------------------------------------------------------- pointers


def pointers(c):
    for w in WIDTHS:
        for p in ('dev', 'release'):
            c.harness('ptr', w, p)


@check
def C01(c):
    pointers(c)
    c.wait()
    return 'exploration', inputs('every pair of an address from {few bits set or cleared, runs, 2^n +- 16} and a discriminant (all of them up to '
                                 '4096, otherwise the same patterns), at every width and profile; all pairs are distinct and read back through every accessor'), [REAL, ALPHA]


@check
def C02(c):
    pointers(c)
    c.wait()
    return 'exploration', inputs('every out-of-range discriminant of the discriminant type, addresses with every combination of out-of-range bits, '
                                 'through every constructor; distinct by construction'), [REAL, ALPHA]


@check
def C03(c):
    pointers(c)
    c.wait()
    return 'exploration', inputs('every ordered pair of a set of tagged pointers, and every triple of a smaller one; non-trivial: the two differ'), [REAL, ALPHA]


@check
def C04(c):
    pointers(c)
    placed(c)
    c.wait()
    return 'exploration', inputs('every combination of flags, fill, alignment, width and kind of number, times addresses and discriminants; distinct by construction'), [REAL, ALPHA]


# ---------------------------------------------------------------- histories

def some(c, quick):
    return WIDTHS if c.thorough else quick


def raw(c, quick=(48, 60, 63), shards=8):
    for w in some(c, quick):
        c.harness('raw', w, 'dev', shards)
    for w in ((48, 60, 63) if c.thorough else (60,)):
        c.harness('raw', w, 'release', shards)


def enums(c, quick=(48, 60, 63), shards=8):
    for w in some(c, quick):
        c.harness('enum', w, 'dev', shards)
    for w in ((48, 60, 63) if c.thorough else (60,)):
        c.harness('enum', w, 'release', shards)
    for w in some(c, (60,)):
        c.harness('sized', w, 'dev', 4)
    if c.thorough:
        c.harness('sized', 60, 'release', 4)


def trees(c):
    for w in some(c, (60, 63)):
        c.harness('tree', w, 'dev', 4 if c.thorough else 1)
    if c.thorough:
        c.harness('tree', 60, 'release', 4)


def rotations(c):
    for w, profile in ((60, 'dev'), (60, 'release'), (48, 'dev')) if c.thorough else ((60, 'dev'),):
        c.harness('rot', w, profile, 2)


def long(c):
    """One operation repeated more often than 16 bits count, each one, then every observation."""
    for w, profile in ((60, 'light'), (60, 'release'), (48, 'light')) if c.thorough else ((60, 'light'),):
        c.harness('long', w, profile, 8 if c.thorough else 4)


def placed(c):
    """Blocks at addresses of every magnitude and at every offset."""
    for w in (48, 51, 54, 57, 60, 61) if c.thorough else (48, 60) if c.prop in ('C07', 'C09', 'C22') else (60,):
        c.harness('place', w, 'light', 8 if c.thorough else 4)
    if c.thorough:
        c.harness('place', 60, 'release', 8)
    if c.prop in ('C08', 'C11', 'C12', 'C13'):
        c.harness('facts', 60, 'light', 1)
    if c.prop in ('C07', 'C09', 'C11', 'C12', 'C13', 'C19'):
        bulk(c)


def bulk(c):
    """Payloads of many sizes and alignments with every byte marked in turn."""
    for w in (48, 52, 56, 60, 61) if c.thorough else (60,):
        c.harness('bulk', w, 'light', 4)
    if c.thorough:
        c.harness('bulk', 60, 'dev', 8)


def histories_of(r, e, miri=False):
    def f(c):
        if miri:
            c.miri('raw', 60, 8)
            c.miri('enum', 60, 8)
            c.miri('tree', 60, 4)
        if r:
            raw(c)
        if e:
            enums(c)
            trees(c)
        if c.prop in ('C07', 'C08', 'C11', 'C19'):
            rotations(c)
        if c.prop in ('C08', 'C10', 'C11', 'C19'):
            long(c)
        if c.prop != 'C10':
            placed(c)
        if c.prop == 'C07':
            for w in some(c, (48, 60)):
                c.harness('ptr', w)
        if c.prop == 'C08':
            for w, profile in ((48, 'dev'), (60, 'dev'), (60, 'release')):
                c.harness('own', w, profile, 1)
        c.wait()
        return 'model_checking', histories, [
            REAL, 'the reference model is compared with the implementation after every step of every history',
            'breadth-first: every transition of the reachable model graph; depth-first: every history up to the depth, without merging states']
    return f


for _id, _r, _e, _m in (('C07', True, True, False), ('C08', True, True, False), ('C09', True, True, True), ('C10', True, True, False), ('C11', False, True, False),
                        ('C19', False, True, False)):
    _f = histories_of(_r, _e, _m)
    _f.__name__ = _id
    check(_f)


def faults(c):
    k = c.counters
    d = dict(evaluations=k.get('fault_points', 0) + k.get('refused_requests', 0) + k.get('failing_formats', 0), distinct_nontrivial=k.get('states', 0),
             rule='states: distinct model states reached; from each, every operation is run once per call it makes that can fail, with that call failing, '
                  'followed by every single further operation')
    d.update({x: v for x, v in k.items() if x not in d})
    return d


@check
def C17(c):
    enums(c)
    long(c)
    trees(c)
    c.wait()
    return 'fault_enumeration', faults, [REAL, ALPHA]


@check
def C18(c):
    raw(c)
    enums(c)
    c.wait()
    return 'fault_enumeration', faults, [REAL, 'refusing operations run in a forked child: an abort is an accepted end, any other death is not']


# ---------------------------------------------------------------- comparing and formatting

@check
def C12(c):
    for w in (range(48, 61) if c.thorough else (48, 60)):
        c.harness('cmpfmt', w, 'dev')
    c.harness('cmpfmt', 60, 'release')
    rotations(c)
    long(c)
    placed(c)
    trees(c)
    c.wait()
    return 'exploration', inputs('every == table, partial_cmp table and cmp table over three values (user-defined, so asymmetric and irreflexive ones too), every '
                                 'operand pair through every operator; and every ordered pair of values of enums of every variant kind'), [REAL, ALPHA]


@check
def C13(c):
    for w in (range(48, 61) if c.thorough else (48, 60)):
        c.harness('cmpfmt', w, 'dev')
    c.harness('cmpfmt', 60, 'release')
    rotations(c)
    long(c)
    placed(c)
    trees(c)
    c.wait()
    return 'exploration', inputs('every combination of formatting flags times values of every variant kind, and the same with the sink failing at every write'), [REAL, ALPHA]


# ---------------------------------------------------------------- threads

@check
def C20(c):
    c.miri('conc', 60, 8, flags='-Zmiri-disable-weak-memory-emulation -Zmiri-preemption-rate=0')
    for w in ((48, 55, 60, 62) if c.thorough else (60,)):
        c.harness('conc', w, 'light', 8)
    c.harness('conc', 60, 'release', 8)
    c.wait()

    def cov(c):
        k = c.counters
        d = dict(states=k.get('states', 0), transitions=k.get('transitions', 0), traces_validated_against_impl=k.get('schedules', 0))
        d.update({x: v for x, v in k.items() if x not in d})
        return d
    return 'model_checking', cov, [REAL, 'real threads under a controlled scheduler; switching points: user code, allocator calls, and (two threads) every machine instruction',
                                   'data races: the same schedules under Miri\'s race detector, with no synchronisation between the steps of different threads']


# ---------------------------------------------------------------- generated programs

CARGO = '''[package]
name = "g"
version = "0.1.0"
edition = "%s"
[workspace]
[dependencies]
mc = { path = "%s/mc" }
harness = { path = "%s/harness", default-features = false }
tagged-box = { path = "%s" }
[profile.dev]
opt-level = 0
debug = 0
incremental = false
[profile.dev.package.mc]
opt-level = 2
[profile.release]
opt-level = 1
debug = 0
incremental = false
'''


class Gen:
    """A cargo project of generated programs at one width."""

    def __init__(self, ctx, width, name='g', profile='dev', edition=2021):
        self.ctx, self.width, self.profile, self.edition = ctx, width, profile, edition
        self.dir = os.path.join(ctx.dir, '%s%s' % (name, width))
        while True:
            try:
                os.makedirs(os.path.join(self.dir, 'src/bin'))
                break
            except FileExistsError:
                self.dir += '_'
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write(CARGO % (edition, VERIF, VERIF, REPO))
        self.mods = {}   # program -> [(module name, first line, last line, enum)]

    def add(self, name, text):
        with open(os.path.join(self.dir, 'src/bin', name + '.rs'), 'w') as f:
            f.write(text)

    def remove(self, name):
        os.remove(os.path.join(self.dir, 'src/bin', name + '.rs'))

    def env(self):
        return base_env(width=self.width)

    def build(self, args=('build',)):
        target = os.path.join(TARGET, 'g-%s%s%s' % (self.width, '' if self.profile == 'dev' else '-release', '' if self.edition == 2021 else '-%d' % self.edition))
        return self.ctx.cargo(self.dir, list(args) + ['--bins', '--keep-going'] + (['--release'] if self.profile == 'release' else []), self.env(), target)


def module_lines(text):
    out, start, name = [], 0, None
    for i, line in enumerate(text.splitlines(), 1):
        m = re.match(r'pub mod (\w+) \{', line)
        if m:
            if name:
                out.append((name, start, i - 1))
            name, start = m.group(1), i
    if name:
        out.append((name, start, 10 ** 9))
    return out


def gen_programs(c, width, families, tag, chunk=150, keep=None, profile='dev', edition=2021):
    """Builds and runs programs of many enums each; enums that do not compile are singled out."""
    variant = ('' if profile == 'dev' else 'r') + ('' if edition == 2021 else 'e%d' % edition)
    g = Gen(c, width, 'g' + variant, profile, edition)
    texts, by_name = {}, {}
    for fam, enums_ in families.items():
        for i in range(0, len(enums_), chunk):
            n = '%s%d' % (fam, i // chunk)
            texts[n] = progs.program(enums_[i:i + chunk], tag)
            g.add(n, texts[n])
        for e in enums_:
            by_name[e['name']] = e
    control = dict(name='control', variants=[('A', 'unit', [])], derive=[])
    g.add('control', progs.program([control], tag))
    texts['control'] = None
    config = '%d bits%s%s' % (width, '' if profile == 'dev' else ', release', '' if edition == 2021 else ', edition %d' % edition)
    c.configs.append('%s: %d enums in %d programs' % (config, len(by_name), len(texts) - 1))

    def build():
        built, msgs, err, rc = g.build()
        if any(m['target'] not in texts for m in msgs) or ('control' not in built):
            bad = [m for m in msgs if m['target'] not in texts or m['target'] == 'control']
            raise HarnessError('the programs at %s do not build at all: %s' % (config, (bad[0]['rendered'] if bad else err)[:3000]))
        failed = [n for n in texts if n not in built]
        if failed:
            suspects = {}
            for m in msgs:
                for name, a, b in module_lines(texts.get(m['target']) or ''):
                    if any(a <= x <= b for x in m['lines']):
                        suspects.setdefault(name, m)
            if not suspects:
                raise HarnessError('%s at %s: does not compile, no enum to blame: %s' % (failed, config, (msgs[0]['rendered'] if msgs else err)[:3000]))
            # Each suspect alone, next to the control program.
            g2 = Gen(c, width, 'alone' + variant, profile, edition)
            g2.add('control', progs.program([control], tag))
            first = list(suspects)[:12]
            for n in first:
                g2.add('x_' + n, progs.program([by_name[n]], tag))
            built2, msgs2, err2, rc2 = g2.build()
            if 'control' not in built2:
                raise HarnessError('the control program does not build: %s' % err2[:2000])
            guilty = [n for n in first if 'x_' + n not in built2]
            for n in guilty:
                m = [m for m in msgs2 if m['target'] == 'x_' + n]
                c.violation(n, 'an enum of the documented grammar does not compile: %s' % (m[0]['text'] if m else 'unknown error'),
                            'a program with only this enum: %s (TAGGED_BOX_RESERVED_WIDTH=%dbits)\n%s\n%s' % (
                                os.path.join(g2.dir, 'src/bin/x_%s.rs' % n), width, progs.definition(by_name[n]), m[0]['rendered'][:3000] if m else ''), config)
            if not guilty:
                raise HarnessError('%s at %s: does not compile, but each of %s alone does: %s' % (failed, config, first, msgs[0]['rendered'][:3000]))
        return {n: e for n, e in built.items() if n in texts and n != 'control'}

    c.spawn(build, lambda b: [lambda n=n, e=e: c.explorer([e], '%s, %s' % (config, n), env=g.env(), keep=keep) for n, e in b.items()])


def families(c, w):
    t = c.thorough
    f = dict(ar=progs.arities(w), g2_=progs.grid(progs.SMALL if t else progs.SMALL[:14], 2, w, 'g'),
             g3_=progs.grid(['u8', 'u16', 'u32', 'u64', 'u128', 'String', 'D'] if t else ['u8', 'u64', 'u128', 'String'], 3, w, 'g'),
             sq=progs.sequences(w, 3), nm=progs.names(w), dv=progs.derives(w), ex=progs.exotic(w), fm=progs.forms(w))
    if t and w in (48, 56, 60, 61):
        f['g4_'] = progs.grid(['u8', 'u16', 'u32', 'u64', 'String'], 4, w, 'g')
        f['sqq'] = [e for e in progs.sequences(w, 4) if e['name'].startswith('sq4_')]
    return f


@check
def C14(c):
    for w in some(c, (48, 60, 63)):
        gen_programs(c, w, families(c, w), 'C14', keep=lambda v: v['tag'] in ('C14', 'ANY'))
    for w in (48, 60, 63) if c.thorough else (60,):
        gen_programs(c, w, families(c, w), 'C14', keep=lambda v: v['tag'] in ('C14', 'ANY'), profile='release')
    for edition in (2018, 2024):
        for w in (48, 60, 63) if c.thorough else (60,):
            f = families(c, w)
            gen_programs(c, w, f if c.thorough else {k: f[k] for k in ('ar', 'nm', 'dv', 'fm')}, 'C14', keep=lambda v: v['tag'] in ('C14', 'ANY'), edition=edition)
    for w in some(c, (60,)):
        c.harness('enum', w, 'dev', 8)
    bulk(c)
    c.wait()

    def cov(c):
        d = inputs('every enum of the families (tuples and structs of 0 to 32 fields; all type combinations of 2 and 3 fields; all sequences of up to 3 variant shapes; '
                   'unusual names; derives and visibilities; every way to call the macro, in three editions; every type of a table in every shape), every variant, two value patterns, eleven routes each; '
                   'non-trivial: variants with a discriminant of their own')(c)
        return d
    return 'exploration', cov, [REAL, 'the grammar is the one of the macro documentation: every variant followed by a comma, no attributes on variants, no generics, distinct payload types']


@check
def C15(c):
    for w in some(c, (48, 55, 56, 57, 59, 60, 61, 62, 63)):
        counts(c, w)
    for w in (56, 60, 63) if c.thorough else (60,):
        counts(c, w, 'release')
    c.wait()
    return 'exploration', inputs('enums of 1, 2, capacity - 1 (they have to work), capacity and more variants (they have to work or to be refused), of units, tuples, structs and mixed; '
                                 'every variant through every route; non-trivial: variants with a discriminant of their own'), [
        REAL, 'at 48 to 55 bits the capacity (512 and more) is out of reach of compilation; enums of up to 300 variants pass the range of an 8-bit discriminant']


def counts(c, w, profile='dev'):
    cap = 1 << (64 - w)
    kinds = ('unit', 'tuple', 'struct', 'mixed') if c.thorough or w in (48, 59, 60, 61) else ('unit', 'mixed')
    inside = sorted({n for n in (1, 2, 3, cap // 2, cap // 2 + 1, cap - 1) if 1 <= n <= cap - 1} if cap <= 256 else {1, 255, 256, 257, 300})
    if cap <= 256:
        over = sorted({cap, cap + 1} | ({2 * cap, 255, 256, 257, 2 * cap + 1} if c.thorough or cap <= 16 else set()))
        over = [n for n in over if n >= cap]
    else:
        over = []
    fam = {}
    for k in kinds:
        fam[k] = [dict(name='%s%d' % (k, n), variants=progs.counts(n, k), derive=[]) for n in inside]
    gen_programs(c, w, fam, 'C15', chunk=3, keep=lambda v: v['tag'] in ('C15', 'ANY'), profile=profile)
    if not over:
        return
    g = Gen(c, w, 'over' + profile, profile)
    g.add('control', progs.program([dict(name='control', variants=[('A', 'unit', [])], derive=[])], 'C15'))
    names = []
    for k in kinds[:2] if not c.thorough else kinds:
        for n in over:
            # A variant with a payload that is not zero-sized is needed to see a mix-up.
            name = 'over_%s%d' % (k, n)
            names.append(name)
            e = dict(name=name, variants=progs.counts(n, k), derive=[])
            g.add(name, progs.HEAD + progs.SUPPORT + progs.module(e).replace('harness::probe::run::<Item>(tag, "%s", only)' % name,
                                                                         'harness::probe::refused::<Item>(tag, "%s", %d)' % (name, cap))
                  + progs.main(['%s::go("C15", only);' % name]))

    def build():
        built, msgs, err, rc = g.build()
        if 'control' not in built:
            raise HarnessError('the control program does not build at %d bits: %s' % (w, err[:2000]))
        for n in names:
            if n not in built:
                c.count('refused_by_compiler')
                c.count('evaluations')
                m = [m for m in msgs if m['target'] == n]
                c.sample('[%d bits] %s: refused: %s' % (w, n, m[0]['text'] if m else '?'))
        return {n: built[n] for n in names if n in built}
    c.configs.append('%d bits: %d enums at or over capacity' % (w, len(names)))
    c.spawn(build, lambda b: [lambda n=n, e=e: c.explorer([e], '%d bits, %s' % (w, n), env=g.env()) for n, e in b.items()])


@check
def C16(c):
    for w in some(c, (48, 56, 60, 61, 63)):
        unknown(c, w)
    for w in (48, 60, 63) if c.thorough else (60, 63):
        unknown(c, w, 'release')
    long(c)
    safe_programs(c)
    c.wait()
    return 'exploration', inputs('enums of 1 to 40 variants, every discriminant that names no variant (at 48 to 51 bits: all below 1024 and all patterns of few bits in the quick tier), '
                                 'three ways to make such a box, 13 routes and 11 more per known variant; and every pair of a way to make and a way to read a box in a '
                                 'program without unsafe code'), [REAL, ALPHA]


def unknown(c, w, profile='dev'):
    g = Gen(c, w, 'u' + profile, profile)
    es = progs.unknowns(w, 40 if c.thorough else (16 if w >= 56 else 6))
    g.add('unknown', progs.unknown_program(es))
    config = '%d bits, %s' % (w, profile)
    c.configs.append('%s: %d enums' % (config, len(es)))

    def build():
        built, msgs, err, rc = g.build()
        if 'unknown' not in built:
            raise HarnessError('does not build at %s: %s' % (config, (msgs[0]['rendered'] if msgs else err)[:2000]))
        return built['unknown']
    n = 8 if w < 56 else 1
    c.spawn(build, lambda e: [lambda i=i: c.explorer([e], config, shard=(i, n), env=g.env()) for i in range(n)])


def safe_programs(c, w=60):
    g = Gen(c, w, 'safe')
    pairs = {}
    for m in progs.SAFE_MAKES:
        for r in progs.SAFE_READS:
            n = ('%s__%s' % (m, r)).replace('-', '_')
            pairs[n] = (m, r)
            g.add(n, progs.safe_program(m, r))
    c.configs.append('%d bits: %d programs without unsafe code' % (w, len(pairs)))

    def build():
        built, msgs, err, rc = g.build()
        if 'own__from_tagged_box' not in built:
            raise HarnessError('the control program does not build: %s' % err[:2000])
        c.count('safe_programs', len(pairs))
        c.count('safe_programs_refused', len(pairs) - len([n for n in built if n in pairs]))
        return {n: e for n, e in built.items() if n in pairs}

    def run(n, exe):
        make, read = pairs[n]
        log = c.path('safe.log')
        env = g.env()
        rc = c.run_once([exe], env, c.dir, 60, log)
        c.count('evaluations')
        c.count('distinct_nontrivial')
        if (make, read) in progs.SAFE_FINE:
            if rc != 0:
                if n == 'own__from_tagged_box':
                    c.error('the control program ends with %s: %s' % (rc, tail_of(log)))
                else:
                    c.count('ordinary_programs_failing')
            return
        if rc == 101:
            return  # it panics: nothing is read
        c.finding('%s+%s' % (make, read), n, 'a program without unsafe code makes a box by "%s" and reads it by "%s" as something it does not hold (exit %s)' % (
            progs.SAFE_MAKES[make], progs.SAFE_READS[read], rc), '%d bits; source: %s' % (w, os.path.join(g.dir, 'src/bin', n + '.rs')))
    c.spawn(build, lambda b: [lambda n=n, e=e: run(n, e) for n, e in b.items()])


@check
def C21(c):
    for w in some(c, (60, 63)):
        g = Gen(c, w, 'a')
        text, n = progs.c21_program(w, c.thorough)
        g.add('auto', text)
        c.configs.append('%d bits: %d enums' % (w, n))

        def build(g=g, w=w):
            built, msgs, err, rc = g.build()
            if 'auto' not in built:
                raise HarnessError('does not build at %d bits: %s' % (w, (msgs[0]['rendered'] if msgs else err)[:2000]))
            return built['auto']
        c.spawn(build, lambda e, g=g, w=w: [lambda: c.explorer([e], '%d bits' % w, env=g.env())])
    c.wait()
    return 'exploration', inputs('every assignment of {Send and Sync, Send only, Sync only, neither} to the fields of tuples and structs of 0 to 3 fields, to pairs of variants, '
                                 'and to one position of long tuples, structs and enums; distinct by construction; Send and Sync of box and container compared with the enum\'s'), [
        REAL, 'the compiler\'s own trait resolution is the oracle for the enum']


@check
def C22(c):
    raw(c)
    placed(c)
    for w in some(c, (48, 60, 63)):
        f = families(c, w)
        gen_programs(c, w, {k: f[k] for k in (f if c.thorough else ('ar', 'g2_', 'ex'))}, 'C14', keep=lambda v: v['tag'] == 'C22')
    c.wait()

    def cov(c):
        k = c.counters
        d = dict(evaluations=k.get('evaluations', 0) + k.get('histories', 0), distinct_nontrivial=k.get('distinct_nontrivial', 0) + k.get('states', 0),
                 rule='size and word of box and container after every step of every history of the raw interface (states: distinct model states), and for every variant of '
                      'every generated enum (distinct_nontrivial: variants with a discriminant of their own)')
        d.update({x: v for x, v in k.items() if x not in d})
        return d
    return 'exploration', cov, [REAL, ALPHA]


# ---------------------------------------------------------------- constants

@check
def C24(c):
    for w in WIDTHS:
        consts(c, w)
    for w in some(c, (48, 49, 57, 60, 63)):
        const_programs(c, w)
    consts(c, 60, 'release')
    const_programs(c, 60, 'release')
    c.wait()
    return 'exploration', inputs('all discriminants (up to 4096: the smallest and the largest half) x 11 types made dangling in constants, statics and at run time; addresses of few '
                                 'bits set or cleared x a spread of discriminants stored, fetched and stripped in constants and at run time; boxes of unit variants in constants, '
                                 'statics and arrays; and 8 forms of constant x 2 types x discriminants within and past the limit, each a program of its own'), [
        REAL, ALPHA, 'rustc\'s evaluation of constants is what decides what a constant holds']


def consts(c, w, profile='dev'):
    """A build that fails in the constants themselves is a violation; any other is an error."""
    config = 'consts, %d bits, %s' % (w, {'dev': 'debug'}.get(profile, profile))
    c.configs.append(config)

    def build():
        target = os.path.join(TARGET, 'h-%s-%s' % (w, profile))
        args = ['build', '--bin', 'consts'] + (['--no-default-features'] if w >= 61 else []) + (['--release'] if profile == 'release' else [])
        built, msgs, err, rc = c.cargo(os.path.join(VERIF, 'harness'), args, base_env(width=w), target)
        if built.get('consts'):
            return built['consts']
        mine = [m for m in msgs if m['target'] == 'consts']
        if not mine:
            raise HarnessError('cannot build consts at %s: %s' % (config, ('\n'.join(m['rendered'] for m in msgs[:3]) or err)[-3000:]))
        c.violation('build', 'the constants that hold tagged pointers and boxes do not compile: %s' % mine[0]['text'],
                    'cd %s/harness && TAGGED_BOX_RESERVED_WIDTH=%dbits cargo %s --offline\n%s' % (VERIF, w, ' '.join(args), mine[0]['rendered'][:3000]), config)
        return None
    c.spawn(build, lambda exe: [lambda: c.explorer([exe], config, env=base_env(width=w))] if exe else [])


def const_programs(c, w, profile='dev'):
    g = Gen(c, w, 'k' + profile, profile)
    top, limit = (1 << (64 - w)) - 1, 255 if w >= 56 else 65535
    wanted = {}
    for f in progs.CONST_FORMS:
        for m in progs.CONST_MAKERS:
            for n in sorted({1, top} | {n for n in (top + 1, top + 2, limit) if top < n <= limit}):
                name = '%s_%s_%d' % (f, m, n)
                wanted[name] = n
                g.add(name, progs.const_program(f, m, n))
    # The same without any constant: if this does not build, nothing is known.
    g.add('control', progs.const_program('block', 'pointer', 1).replace('const { TaggedPointer', '{ TaggedPointer'))
    config = '%d bits, %s' % (w, profile)
    c.configs.append('%s: %d programs with constants' % (config, len(wanted)))

    def replay(n):
        return 'cd %s && TAGGED_BOX_RESERVED_WIDTH=%dbits cargo run --offline%s --bin %s' % (g.dir, w, ' --release' if profile == 'release' else '', n)

    def build():
        built, msgs, err, rc = g.build()
        if 'control' not in built:
            raise HarnessError('the control program does not build at %d bits: %s' % (w, err[:2000]))
        for n, d in wanted.items():
            c.count('evaluations')
            c.count('distinct_nontrivial')
            if n not in built:
                why = [m for m in msgs if m['target'] == n]
                if d > top:
                    c.count('refused_by_compiler')
                    c.sample('[%s] %s: refused: %s' % (config, n, why[0]['text'] if why else '?'))
                elif why:
                    c.violation(n, 'a constant with a discriminant within the limit does not compile: %s' % why[0]['text'], replay(n) + '\n' + why[0]['rendered'][:3000], config)
                else:
                    c.error('%s at %s is not built and nothing says why: %s' % (n, config, err[-1000:]))
        return {n: built[n] for n in wanted if n in built}

    def run(n, exe):
        log = c.path('const.log')
        rc = c.run_once([exe], g.env(), c.dir, 60, log)
        if wanted[n] > top:
            if rc != 101:
                c.violation(n, 'a constant with a discriminant past the limit compiles, and the program ends with %s instead of panicking' % rc, replay(n), config)
        elif rc != 0:
            c.violation(n, 'a constant with a discriminant within the limit: %s' % (
                'reads as another discriminant' if rc == 5 else 'the program ends with %s: %s' % (rc, tail_of(log))), replay(n), config)
    c.spawn(build, lambda b: [lambda n=n, e=e: run(n, e) for n, e in b.items()])


# ---------------------------------------------------------------- implementations by hand

@check
def C25(c):
    c.miri('manual', 60, 8)
    for w in some(c, (48, 57, 60, 62, 63)):
        c.harness('manual', w, 'dev', 8)
    for w in some(c, (48, 60)):
        c.harness('ptr', w)
    c.harness('manual', 60, 'release', 8)
    placed(c)
    c.wait()

    def cov(c):
        k = c.counters
        d = dict(states=k.get('states', 0), transitions=k.get('transitions', 0), traces_validated_against_impl=k.get('evaluations', 0),
                 explanation='states: assignments of discriminants to the variants of a hand-written implementation; from each, every value and every pair of values is taken '
                             'through every operation of the real code (transitions: pairs), in up to five ways of storing a value')
        d.update({x: v for x, v in k.items() if x not in d})
        return d
    return 'model_checking', cov, [REAL, ALPHA, 'the hand-written implementations keep the contract of the traits']


# ---------------------------------------------------------------- builds

@check
def C05(c):
    return builds.c05(c)


@check
def C06(c):
    return builds.c06(c)


@check
def C23(c):
    return builds.c23(c)
