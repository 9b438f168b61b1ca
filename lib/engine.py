"""Builds the explorers from /repo's working tree, runs them, and turns their reports into a verdict."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TAGGED_BOX_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
CPUS = os.cpu_count() or 4
WIDTHS = list(range(48, 64))
T0 = time.time()


class HarnessError(Exception):
    """Something is wrong with the machinery or its surroundings; nothing is known about the property."""


def base_env(toolchain='stable', width=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('CARGO_', 'RUST', 'TAGGED_BOX', 'MIRI')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.update(RUSTUP_TOOLCHAIN=toolchain, RUST_BACKTRACE='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTFLAGS='-Awarnings -Asemicolon_in_expressions_from_macros')
    if width is not None:
        e['TAGGED_BOX_RESERVED_WIDTH'] = width if isinstance(width, str) else '%dbits' % width
    return e


def repo_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(('.rs', '.toml', '.lock')):
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def forget_stale(target, stamp):
    """Cargo goes by modification times; go by content."""
    f = os.path.join(target, 'repo.stamp')
    try:
        if open(f).read() == stamp:
            return
    except OSError:
        pass
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == '.fingerprint':
            for d in list(dirs):
                if d.startswith('tagged-box-'):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []
        elif root.count(os.sep) - target.count(os.sep) > 3:
            dirs[:] = []
    os.makedirs(target, exist_ok=True)
    open(f, 'w').write(stamp)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.dir = os.path.join(WORK, '%s-%s' % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.stamp = repo_stamp()
        self.lock = threading.Lock()
        self.builds = cf.ThreadPoolExecutor(max(2, CPUS // 2))
        self.runs = cf.ThreadPoolExecutor(CPUS)
        self.counters, self.distinct, self.samples, self.findings = {}, {}, [], []
        self.violations, self.errors, self.notes = [], [], []
        self.known = load_known()
        self.configs = []
        self.pending = []
        self.serial = 0
        self.target_locks = {}

    # -------------------------------------------------------------- bookkeeping
    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 24:
                self.samples.append(s)

    def error(self, msg):
        with self.lock:
            self.errors.append(msg)

    def violation(self, case, msg, replay=None, config=''):
        with self.lock:
            self.violations.append(dict(case=case, msg=msg, replay=replay, config=config))

    def finding(self, key, case, msg, config=''):
        with self.lock:
            self.findings.append(dict(key=key, case=case, msg=msg, config=config))

    def path(self, name):
        with self.lock:
            self.serial += 1
            return os.path.join(self.dir, '%d-%s' % (self.serial, name))

    # -------------------------------------------------------------- building
    def cargo(self, project, args, env, target, timeout=800):
        """Runs cargo build/check in project. Returns ({target name: executable or None}, log, exit code)."""
        with self.lock:
            tl = self.target_locks.setdefault(target, threading.Lock())
        with tl:
            os.makedirs(target, exist_ok=True)
            with open(os.path.join(target, 'verif.lock'), 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                forget_stale(target, self.stamp)
                cmd = ['cargo'] + args + ['--offline', '--message-format=json']
                env = dict(env, CARGO_TARGET_DIR=target)
                try:
                    p = subprocess.run(cmd, cwd=project, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       timeout=timeout, stdin=subprocess.DEVNULL)
                except subprocess.TimeoutExpired:
                    raise HarnessError('%s in %s takes more than %d s' % (' '.join(cmd), project, timeout))
        built, msgs = {}, []
        for line in p.stdout.decode('utf-8', 'replace').splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-artifact' and 'bin' in m['target']['kind']:
                built[m['target']['name']] = m.get('executable')
            elif m.get('reason') == 'compiler-message' and m['message']['level'] in ('error', 'error: internal compiler error'):
                lines = []
                for s in m['message'].get('spans', []):
                    while s.get('expansion'):
                        s = s['expansion']['span']
                    lines.append(s['line_start'])
                msgs.append(dict(target=m['target']['name'], package=m.get('package_id', ''), text=m['message']['message'],
                                 rendered=m['message'].get('rendered', ''), lines=lines))
        return built, msgs, p.stderr.decode('utf-8', 'replace'), p.returncode

    def build_harness(self, bin, width, profile='dev', miri=None):
        project = os.path.join(VERIF, 'harness')
        target = os.path.join(TARGET, 'h-%s-%s' % (width, profile))
        args = ['build', '--bin', bin] + ([] if profile == 'dev' else ['--profile', profile])
        if isinstance(width, int) and width >= 61:
            args += ['--no-default-features']
        env = base_env(width=None if width == 'unset' else width)
        built, msgs, err, rc = self.cargo(project, args, env, target)
        if rc != 0 or not built.get(bin):
            text = '\n'.join(m['rendered'] for m in msgs[:3]) or err[-2000:]
            raise HarnessError('cannot build %s at %s bits (%s): %s' % (bin, width, profile, text[:3000]))
        return built[bin]

    # -------------------------------------------------------------- running
    def run_once(self, cmd, env, cwd, timeout, log, crumb=None, stall=None):
        """Exit code, or 'timeout', or 'stall' (the case at hand has not changed for stall seconds), or 'late' (a violation is
        known and there is no time left to look for more)."""
        with open(log, 'wb') as out:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            t0, end = time.time(), None
            while end is None:
                try:
                    p.wait(0.1 if time.time() - t0 < 2 else 1)
                    return p.returncode
                except subprocess.TimeoutExpired:
                    pass
                if time.time() - t0 > timeout:
                    end = 'timeout'
                elif self.late():
                    end = 'late'
                elif stall and time.time() - t0 > stall:
                    try:
                        st = os.stat(crumb)
                        if st.st_size and time.time() - st.st_mtime > stall:
                            end = 'stall'
                    except OSError:
                        pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return end

    def alone(self, base, env, cwd, case, timeout):
        """Runs the case twice in processes of its own, both at a time if it may take long."""
        def one(log):
            return self.run_once(base + ['--only', case], env, cwd or self.dir, timeout, log), tail_of(log)
        logs = [self.path('replay.log') for _ in range(2)]
        out = {}
        ts = [threading.Thread(target=lambda l=l: out.__setitem__(l, one(l))) for l in logs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return [out[l] for l in logs]

    def late(self):
        return bool(self.violations) and not self.thorough and time.time() - T0 > 720

    def explorer(self, cmd, config, prop=None, shard=None, env=None, cwd=None, timeout=None, keep=None, extra=()):
        """One explorer process. keep: which violations count (default: of this property, or of any)."""
        prop = prop or self.prop
        timeout = timeout or (600 if not self.thorough else 3000)
        out, crumb, log = self.path('report.json'), self.path('crumb'), self.path('log')
        base = list(cmd) + ['--prop', prop, '--tier', self.tier] + list(extra)
        args = base + ['--out', out, '--crumb', crumb, '--secs', str(int(timeout * 0.8))]
        if shard:
            args += ['--shard', '%d/%d' % shard]
        env = env or base_env()
        if self.late():
            return self.notes.append('%s: not run, a violation is known' % config)
        stall = 1200 if self.thorough else 150
        rc = self.run_once(args, env, cwd or self.dir, timeout, log, crumb, stall)
        if rc == 'late':
            return self.notes.append('%s: cut short, a violation is known' % config)
        envs = ' '.join('%s=%s' % (k, "'%s'" % env[k]) for k in ('RUSTUP_TOOLCHAIN', 'TAGGED_BOX_RESERVED_WIDTH', 'CARGO_TARGET_DIR', 'MIRIFLAGS', 'RUSTFLAGS') if k in env)

        def replay_cmd(case):
            return 'cd %s && %s %s' % (cwd or self.dir, envs, ' '.join(shq(a) for a in base + ['--only', case]))
        if rc == 'stall':
            # Slow or hung? A case that hangs does so alone, in a process of its own; if it does not, all of it runs again.
            case = open(crumb).read().strip()
            bad = self.alone(base, env, cwd, case, stall)
            if all(x == 'timeout' for x, _ in bad):
                return self.violation(case, 'does not come to an end: %s' % (bad[-1][1] or tail_of(log)), replay_cmd(case), config)
            rc = self.run_once(args, env, cwd or self.dir, timeout, log)
            if rc == 'late':
                return self.notes.append('%s: cut short, a violation is known' % config)
        if rc != 0:
            case = open(crumb).read().strip() if os.path.exists(crumb) else ''
            tail = tail_of(log)
            if rc == 3 or not case:
                return self.error('%s [%s]: ends with %s before a case: %s' % (' '.join(args[:6]), config, rc, tail))
            # A crash or a hang counts only if the case does it alone, in a process of its own.
            bad = self.alone(base, env, cwd, case, 120 if rc == 'timeout' else timeout)
            if all(x not in (0, 3, 'late') for x, _ in bad):
                how = 'does not come to an end' if bad[-1][0] == 'timeout' else 'ends the process (%s)' % bad[-1][0]
                self.violation(case, '%s: %s' % (how, bad[-1][1] or tail), replay_cmd(case), config)
            elif any(x == 'late' for x, _ in bad):
                self.notes.append('%s: cut short, a violation is known' % config)
            else:
                self.error('%s [%s] ended with %s at case %s, which alone ends with %s: %s' % (args[0], config, rc, case, [x for x, _ in bad], tail))
            return None
        try:
            r = json.load(open(out))
        except (OSError, ValueError) as e:
            return self.error('%s [%s]: no report: %s' % (args[0], config, e))
        if r['exhausted']:
            self.error('%s [%s]: the checking allocator ran out of room' % (args[0], config))
        with self.lock:
            for k, v in r['counters'].items():
                if k.startswith('finding:') or k == 'violations':
                    continue
                self.counters[k] = max(self.counters.get(k, 0), v) if k == 'max_depth' else self.counters.get(k, 0) + v
            for k, v in r['distinct'].items():
                self.distinct[k] = max(self.distinct.get(k, 0), v)
            for s in r['samples'][:3]:
                if len(self.samples) < 24:
                    self.samples.append('[%s] %s' % (config, s))
        if r['capped']:
            self.notes.append('%s: time limit reached before the bound' % config)
        keep = keep or (lambda v: v['tag'] in (prop, self.prop, 'ANY'))
        for v in r['violations']:
            if keep(v):
                self.violation(v['case'], v['msg'], replay_cmd(v['case']), config)
        for f in r['findings']:
            if f['tag'] == self.prop:
                self.finding(f['key'], f['case'], f['msg'], config)
        return r

    def spawn(self, build, runs, required=False):
        """Schedules a build and, when it is done, the runs made of what it returns."""
        def go():
            try:
                r = build()
            except HarnessError as e:
                if required:
                    raise
                return self.error(str(e))
            fs = [self.runs.submit(f) for f in runs(r)]
            for f in fs:
                f.result()
        # Waiting for the runs must not hold up further builds.
        def build_then():
            try:
                r = build()
            except HarnessError as e:
                self.error(str(e))
                return []
            return [self.runs.submit(f) for f in runs(r)]
        self.pending.append(self.builds.submit(build_then))

    def wait(self):
        while self.pending:
            p, self.pending = self.pending, []
            for b in p:
                for f in b.result():
                    f.result()

    def harness(self, bin, width=60, profile='dev', shards=1, prop=None, keep=None):
        config = '%s, %s, %s' % (bin, '%d bits' % width if isinstance(width, int) else width, 'debug' if profile == 'dev' else profile)
        self.configs.append(config)
        env = base_env(width=None if width == 'unset' else width)
        self.spawn(lambda: self.build_harness(bin, width, profile),
                   lambda exe: [lambda i=i: self.explorer([exe], config, prop, (i, shards), env, keep=keep) for i in range(shards)])

    MIRI = '-Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows'

    def miri(self, bin, width=60, shards=8, prop=None, flags='', target=None, keep=None, project='harness', extra=()):
        config = '%s, %s bits, miri%s' % (bin, width, ' ' + target if target else '')
        self.configs.append(config)
        env = base_env('nightly', width)
        env.pop('RUSTFLAGS')
        env['MIRIFLAGS'] = self.MIRI + ' ' + flags
        env['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'miri-%s-%s' % (width, target or 'host'))
        cwd = os.path.join(VERIF, project)
        cmd = ['cargo', 'miri', 'run', '--offline', '-q', '--bin', bin]
        if width >= 61:
            cmd += ['--no-default-features']
        if target:
            cmd += ['--target', target]
        cmd += ['--']

        with self.lock:
            tl = self.target_locks.setdefault(env['CARGO_TARGET_DIR'], threading.Lock())
            setup_lock = self.target_locks.setdefault('miri setup', threading.Lock())

        def build():
            with tl:
                return locked()

        def locked():
            forget_stale(env['CARGO_TARGET_DIR'], self.stamp)
            log = self.path('miri-build')
            setup = ['cargo', 'miri', 'setup'] + (['--target', target] if target else [])
            with setup_lock:
                rc = self.run_once(setup, env, cwd, 800, log)
            if rc != 0:
                raise HarnessError('cargo miri setup: %s' % tail_of(log))
            # One run that does nothing compiles everything.
            rc = self.run_once(cmd + ['--prop', 'NONE', '--shard', '999/1000', '--out', self.path('none')], env, cwd, 800, log)
            if rc != 0:
                raise HarnessError('%s: miri: %s' % (config, tail_of(log)))
            return cmd
        self.spawn(build, lambda c: [lambda i=i: self.explorer(c, config, prop, (i, shards), env, cwd=cwd, keep=keep, extra=extra)
                                     for i in range(shards)])

    # -------------------------------------------------------------- verdict
    def finish(self, level, coverage, assumptions=()):
        self.builds.shutdown()
        self.runs.shutdown()
        seen, reported = set(), []
        for f in self.findings:
            k = (self.prop, f['key'])
            if k in self.known:
                if k not in seen:
                    print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, f['key'], self.known[k]))
            elif k not in seen:
                reported.append(dict(case=f['case'], msg='%s: %s' % (f['key'], f['msg']), replay=f.get('replay'), config=f['config']))
            seen.add(k)
        groups = {}
        for v in self.violations + reported:
            groups.setdefault(v['msg'], []).append(v)
        n = 0
        for msg, vs in groups.items():
            n += 1
            if n > 20:
                print('... and %d further kinds of violation' % (len(groups) - 20))
                break
            path = os.path.join(self.dir, 'violation-%d.txt' % n)
            v = min(vs, key=lambda v: len(v['case']))
            with open(path, 'w') as fh:
                fh.write('property: %s\nwhat: %s\ncase: %s\nconfiguration: %s\nseen in: %s\nreplay: %s\n' % (
                    self.prop, msg, v['case'], v['config'], ', '.join(sorted({x['config'] for x in vs}))[:2000], v['replay'] or '(run the check)'))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s [%s; %s]' % (msg[:600], v['case'][:200], v['config']))
        for e in self.errors[:10]:
            print('ERROR: %s' % e[:3000])
        for e in sorted(set(self.notes))[:10]:
            print('NOTE: %s' % e)
        cov = coverage(self) if callable(coverage) else coverage
        cov['configurations'] = self.configs
        cov['samples'] = self.samples[:24] or ['(none)']
        if self.notes:
            cov['notes'] = sorted(set(self.notes))
        cov['exhaustive'] = not self.errors and not any('time limit' in x for x in self.notes)
        cov['known_findings_seen'] = sorted('%s' % k[1] for k in seen if k in self.known)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - T0, 1), violations=len(groups))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.prop)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % self.prop))
        summary = {k: v for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)}
        print('%s %s: %d kinds of violation, %d errors, %s, %.0f s' % (self.prop, self.tier, len(groups), len(self.errors), summary, time.time() - T0))
        if groups:
            return 1
        return 2 if self.errors else 0


def shq(s):
    return s if re.fullmatch(r'[\w@%+=:,./-]+', s) else "'" + s.replace("'", "'\\''") + "'"


def tail_of(log, n=600):
    try:
        t = open(log, 'rb').read().decode('utf-8', 'replace')
    except OSError:
        return ''
    t = '\n'.join(l for l in t.splitlines() if l.strip() and not l.startswith(('{', 'warning: `package', ' --> /repo/Cargo.toml')))
    m = re.search(r'error: Undefined Behavior.*', t)
    if m:
        return m.group(0)[:n]
    m = re.search(r'^error(\[E\d+\])?:.*', t, re.M | re.S)
    if m and len(m.group(0)) > n:
        return m.group(0)[:n]
    return t[-n:]


def load_known():
    """finding: property=C10 key=some-key what fails / fixed: property=C08 commit what failed"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out
