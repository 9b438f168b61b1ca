"""C23: programs without std, and other targets."""
import os
import re
import shutil

import progs
from engine import CPUS, HarnessError, REPO, TARGET, VERIF, WIDTHS, base_env, tail_of  # noqa: F401

CARGO = '''[package]
name = "p"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
harness = { path = "%s/port" }
tagged-box = { path = "%s" }
[profile.dev]
panic = "abort"
debug = 0
opt-level = 1
[profile.release]
panic = "abort"
debug = 0
''' % (VERIF, REPO)

# A library: enough to compile for a target nothing here can run.
LIB = '''#![no_std]
#![allow(warnings)]
#![recursion_limit = "2048"]
%s
mod support { pub fn twice(x: u8) -> u8 { x.wrapping_mul(2) } pub fn thrice(x: u8) -> u8 { x.wrapping_mul(3) } }
%s
pub fn go() {
%s
}
'''
MUST_PANIC = 13
BUILD_STD = ['-Zbuild-std=core,alloc', '-Zbuild-std-features=compiler-builtins-mem']
LINK = '-Awarnings -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Crelocation-model=static'


def new_project(c, name, width):
    d = os.path.join(c.dir, name)
    os.makedirs(os.path.join(d, 'src/bin'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO)
    for alloc in (True, False):
        text, n = progs.port_program(width, alloc)
        open(os.path.join(d, 'src/bin/%s.rs' % ('alloc' if alloc else 'core')), 'w').write(text)
    return d, n


def control(c, width):
    """The same enums in a program with std, for the host."""
    import checks
    g = checks.Gen(c, width, 'control')
    g.add('control', progs.std_control(width, True))
    built, msgs, err, rc = g.build()
    if 'control' not in built:
        raise HarnessError('not even the program with std builds at %d bits: %s' % (width, (msgs[0]['rendered'] if msgs else err)[:2000]))


def freestanding(c, width, profile, target=None, first=False):
    """A program without std, run here: for the host, or as a static 32-bit one."""
    config = '%d bits, no std, %s, %s' % (width, target or 'host', 'debug' if profile == 'dev' else profile)
    c.configs.append(config)
    d, n = new_project(c, 'p%d-%s-%s' % (width, target or 'host', profile), width)
    env = base_env('nightly' if target else 'stable', width)
    args = ['build', '--bins', '--keep-going'] + (['--release'] if profile == 'release' else [])
    tdir = os.path.join(TARGET, 'p-%s-%s' % (width, target or 'host'))
    if target:
        env['RUSTFLAGS'] = LINK
        args += BUILD_STD + ['--target', target]
    replay = 'cd %s && TAGGED_BOX_RESERVED_WIDTH=%dbits RUSTUP_TOOLCHAIN=%s RUSTFLAGS="%s" CARGO_TARGET_DIR=%s cargo %s --offline' % (
        d, width, env['RUSTUP_TOOLCHAIN'], env['RUSTFLAGS'], tdir, ' '.join(args))

    def build():
        built, msgs, err, rc = c.cargo(d, args, env, tdir)
        missing = [b for b in ('alloc', 'core') if b not in built]
        if missing:
            control(c, width)
            if not msgs or not any(m['target'] in ('alloc', 'core', 'tagged_box', 'tagged-box', 'build-script-build') for m in msgs):
                # Linking: only what the crate asks for can be missing.
                if not re.search(r'tagged[_-]box|undefined reference|duplicate lang item|duplicate symbol|multiple definition', err):
                    raise HarnessError('%s: does not build: %s' % (config, (msgs[0]['rendered'] if msgs else err)[-2000:]))
            m = msgs[0] if msgs else dict(text=(re.findall(r'error: .*', err) or [err[-300:]])[0], rendered=err[-3000:])
            c.violation('build', 'a program without std does not build although the same enums with std do: %s' % m['text'][:300],
                        replay + '\n' + m['rendered'][:3000], config)
        return built

    def run(b, exe):
        log = c.path('port.log')
        arg = ['deep'] if c.thorough else []
        rc = c.run_once([exe] + arg, base_env(), c.dir, 900 if c.thorough else 300, log)
        text = open(log, errors='replace').read()
        m = re.search(r'DONE (\d+)', text)
        if rc == 0 and m:
            c.count('evaluations', int(m.group(1)))
            c.count('distinct_nontrivial', int(m.group(1)))
        else:
            rc2 = c.run_once([exe] + arg, base_env(), c.dir, 900 if c.thorough else 300, c.path('again.log'))
            if rc2 == 0:
                c.error('%s %s: ended with %s once and well the second time: %s' % (config, b, rc, tail_of(log)))
            else:
                w = re.search(r'(WRONG|PANIC) \[(.*?)\] (.*)', text)
                c.violation(w.group(2) if w else b, 'without std: %s' % (w.group(1) + ': ' + w.group(3) if w else 'ends with %s: %s' % (rc, tail_of(log))),
                            '%s && %s %s' % (replay, exe, ' '.join(arg)), config)
        if b != 'alloc':
            return
        for i in range(MUST_PANIC):
            rc = c.run_once([exe, str(i)], base_env(), c.dir, 60, log)
            text = open(log, errors='replace').read()
            if 'no such case' in text:
                continue
            c.count('evaluations')
            c.count('refusals')
            if rc != 77:
                w = re.search(r'WRONG \[(.*?)\] (.*)', text)
                c.violation('must-panic %d' % i, 'without std: something that has to be refused ends with %s: %s' % (rc, w.group(2) if w else text[-200:]),
                            '%s && %s %d' % (replay, exe, i), config)
    c.spawn(build, lambda built: [lambda b=b, e=e: run(b, e) for b, e in built.items() if e])


def bare(c, target, width):
    """Compiled for a target without an operating system; not run."""
    config = '%d bits, no std, %s, compiled only' % (width, target)
    c.configs.append(config)
    d = os.path.join(c.dir, 'bare-%s-%d' % (target, width))
    os.makedirs(os.path.join(d, 'src'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO.replace('"p"', '"bare"', 1))
    es = [e for e in progs.port_enums(width, True)]
    mods = ''.join(progs.without_std('pub mod %s {\n#![allow(warnings)]\n%s%s\n}\n' % (e['name'], progs.definition(e), progs.probe(e))) for e in es)
    calls = ''.join('    harness::probe::run::<%s::Item>("%s");\n' % (e['name'], e['name']) for e in es)
    open(os.path.join(d, 'src/lib.rs'), 'w').write(LIB % ('extern crate alloc;\nextern crate harness;', mods, calls))
    env = base_env('nightly', width)
    env.pop('RUSTFLAGS')
    tdir = os.path.join(TARGET, 'bare-%s-%d' % (target, width))
    args = ['build', '--lib', '-Zbuild-std=core,alloc', '--target', target]

    def build():
        built, msgs, err, rc = c.cargo(d, args, env, tdir)
        c.count('evaluations')
        c.count('bare_builds')
        if rc != 0:
            control(c, width)
            if not any(m['target'] in ('bare', 'tagged_box', 'tagged-box') for m in msgs):
                raise HarnessError('%s: does not build: %s' % (config, (msgs[0]['rendered'] if msgs else err)[-2000:]))
            m = msgs[0]
            c.violation('build', 'a library without std does not build for %s although the same enums with std do for the host: %s' % (target, m['text'][:300]),
                        'cd %s && cargo +nightly %s\n%s' % (d, ' '.join(args), m['rendered'][:3000]), config)
        return None
    c.spawn(build, lambda _: [])


def interpreted(c, target, width, bins, gen):
    """The explorers and generated programs under Miri for another target."""
    import checks
    for b in bins:
        c.miri(b, width, 8, prop='C09', target=target, keep=lambda v: v['tag'] in ('C07', 'C08', 'C09', 'C11', 'C19', 'ANY'))
    g = checks.Gen(c, width, 'm-%s-' % target)
    es = progs.arities(width, 0, 32)
    es = [e for e in es if int(re.match(r'ar(\d+)', e['name']).group(1)) in gen] + (progs.exotic(width) if c.thorough else progs.exotic(width)[:3])
    k = 8
    for i in range(k):
        if es[i::k]:
            g.add('m%d' % i, progs.program(es[i::k], 'C23'))
    g.add('u', progs.unknown_program(progs.unknowns(width, 3)[:3]))
    for i in range(k):
        if es[i::k]:
            c.miri('m%d' % i, width, 1, target=target, project=g.dir, prop='ALL', keep=lambda v: True)
    c.configs.append('%d enums under Miri for %s' % (len(es), target))


def c23(c):
    i686 = 'i686-unknown-linux-gnu'
    for w in (WIDTHS if c.thorough else (48, 60, 63)):
        freestanding(c, w, 'dev')
        if c.thorough or w == 60:
            freestanding(c, w, 'release')
    for w in ((48, 52, 56, 60, 63) if c.thorough else (60,)):
        freestanding(c, w, 'dev', i686)
        if c.thorough:
            freestanding(c, w, 'release', i686)
    bare(c, 'thumbv7m-none-eabi', 60)
    if c.thorough:
        bare(c, 'x86_64-unknown-none', 60)
        bare(c, 'thumbv7m-none-eabi', 48)
    for t in ('powerpc-unknown-linux-gnu', 's390x-unknown-linux-gnu') + ((i686,) if c.thorough else ()):
        interpreted(c, t, 60, ('raw', 'enum') if c.thorough or t.startswith('powerpc') else ('raw',), (range(0, 33) if c.thorough else (0, 1, 2, 3, 8)))
    if c.thorough:
        interpreted(c, 'powerpc-unknown-linux-gnu', 48, ('raw',), (2, 3))
    c.wait()

    def cov(c):
        k = c.counters
        d = dict(evaluations=k.get('evaluations', 0) + k.get('histories', 0), distinct_nontrivial=k.get('distinct_nontrivial', 0) + k.get('states', 0),
                 rule='in programs without std (host and 32-bit, run natively): every enum of a family through every route, every history of operations on a boxed value up to a '
                      'depth for 14 payload types, pointer patterns, refusals; under Miri for 32-bit and big-endian targets: histories of the raw and the enum interface and '
                      'generated enums; all distinct by construction')
        d.update({x: v for x, v in k.items() if x not in d})
        return d
    return 'exploration', cov, ['the host runs 64- and 32-bit x86 natively; powerpc (32 bits, big endian) and s390x (64 bits, big endian) are interpreted by Miri; thumbv7m is compiled only']
