"""Build and run helpers shared by the checks: everything is rebuilt from /repo's working tree."""
import concurrent.futures, fcntl, hashlib, json, os, shutil, signal, subprocess, time
import idlgen

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TRIPLE = 'x86_64-unknown-linux-gnu'
TOOLCHAIN = '1.78.0'
VPE = os.path.join(BUILD, 'engine', 'release', 'vpe')
TARGET = os.path.join(BUILD, 'target')
REPLAY = os.path.join(TARGET, TRIPLE, 'release', 'replay')
LL = os.path.join(BUILD, 'h.ll')
OPT = ('function(sroa,early-cse,simplifycfg),globalopt,'
       'cgscc(inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce')


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('%s failed (%d):\n%s' % (' '.join(cmd[:6]), r.returncode, r.stdout[-4000:]))
    return r.stdout


def tree_hash():
    """Digest of everything in /repo the build reads."""
    h = hashlib.sha256()
    for top in ('programs', 'clients/rust', 'Cargo.toml', 'Cargo.lock', 'idls'):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else []
        for d, sub, fs in os.walk(p):
            sub[:] = sorted(x for x in sub if x not in ('target', 'node_modules', '.git'))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            try:
                b = open(f, 'rb').read()
            except OSError:
                continue
            h.update(f.encode() + b'\0' + str(len(b)).encode() + b'\0' + b)
    return h.hexdigest()


def build_engine():
    sh(['cargo', 'build', '--release', '--offline'], {'CARGO_TARGET_DIR': os.path.join(BUILD, 'engine')}, os.path.join(VERIF, 'engine'))


def std_bitcode():
    """LLVM bitcode of core, alloc and std, taken from the toolchain's own rlibs."""
    out = os.path.join(BUILD, 'std')
    done = os.path.join(out, 'done')
    if os.path.exists(done):
        return
    shutil.rmtree(out, ignore_errors=True)
    root = sh(['rustc', '--print', 'sysroot'], {'RUSTUP_TOOLCHAIN': TOOLCHAIN}).strip().splitlines()[-1]
    lib = os.path.join(root, 'lib', 'rustlib', TRIPLE, 'lib')
    for c in ('core', 'alloc', 'std'):
        r = [f for f in os.listdir(lib) if f.startswith('lib%s-' % c) and f.endswith('.rlib')]
        d = os.path.join(out, c)
        os.makedirs(d)
        sh(['ar', 'x', os.path.join(lib, r[0])], cwd=d)
        for o in sorted(os.listdir(d)):
            p = os.path.join(d, o)
            if o.endswith('.o'):
                subprocess.run(['llvm-objcopy-18', '--dump-section', '.llvmbc=' + p[:-2] + '.bc', p, '/dev/null'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.remove(p)
        if not any(f.endswith('.bc') for f in os.listdir(d)):
            raise CheckError('no bitcode in ' + r[0])
    open(done, 'w').write('ok\n')


def build_harness():
    env = {'RUSTUP_TOOLCHAIN': TOOLCHAIN, 'RUSTFLAGS': '--emit=llvm-bc -C no-prepopulate-passes', 'CARGO_TARGET_DIR': TARGET, 'VP_IDL': os.path.join(BUILD, 'idl.rs')}
    os.makedirs(BUILD, exist_ok=True)
    idlgen.write(os.path.join(REPO, 'idls', 'mplx_rewards.json'), os.path.join(BUILD, 'idl.rs'))
    src = os.path.join(VERIF, 'harness')
    mark = os.path.join(BUILD, 'tree')
    h = tree_hash()
    if os.path.isdir(TARGET) and (not os.path.exists(mark) or open(mark).read() != h):
        # do not rely on file times to notice a change in /repo
        subprocess.run(['cargo', 'clean', '--offline', '--release', '--target', TRIPLE, '-p', 'mplx-rewards', '-p', 'rewards', '-p', 'vp-harness'],
                       env={**os.environ, **env}, cwd=src, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(mark):
        os.remove(mark)
    sh(['cargo', 'build', '--release', '--target', TRIPLE, '--offline'], env, src)
    open(mark, 'w').write(h)


def link(entries):
    deps = os.path.join(TARGET, TRIPLE, 'release', 'deps')
    newest = {}
    for f in os.listdir(deps):
        if f.endswith('.bc') and not f.startswith('replay'):
            name = f.rsplit('-', 1)[0] if '-' in f else f
            newest.setdefault(f, 0)
    # one bitcode file per crate instance; an instance left over from an earlier build has the same crate name
    # and is dropped if its .d file is older
    by = {}
    for f in newest:
        p = os.path.join(deps, f)
        by.setdefault(f.rsplit('-', 1)[0], []).append(p)
    bcs = []
    for name, ps in by.items():
        if name in ('mplx_rewards', 'rewards', 'vp_harness'):
            ps = [max(ps, key=os.path.getmtime)]
        bcs += ps
    for c in ('core', 'alloc', 'std'):
        d = os.path.join(BUILD, 'std', c)
        bcs += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.bc')]
    a, b, c = (os.path.join(BUILD, x) for x in ('all.bc', 'r.bc', 'r2.bc'))
    sh(['llvm-link-18'] + bcs + ['-o', a])
    sh(['opt-18', '--passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), a, '-o', b])
    sh(['opt-18', '--passes=' + OPT, b, '-o', c])
    sh(['llvm-dis-18', c, '-o', LL])
    for x in (a, b, c):
        os.remove(x)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def build(entries, ll=None):
    """Engine, harness (with the program from /repo) and the linked IR of the given entry points."""
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_engine), ex.submit(std_bitcode), ex.submit(build_harness)]:
            f.result()
    link(entries)


def run_vpe(job, time_s, samples, seed, out, stop=None):
    cmd = [VPE, LL, job['entry']]
    for p in job['params']:
        cmd += ['--param', str(p)]
    if job.get('only'):
        cmd += ['--only', ','.join(job['only'])]
    cmd += ['--time', str(int(time_s)), '--samples', str(samples), '--seed', str(seed), '--out', out,
            '--qms', str(job.get('qms', 400)), '--xms', str(job.get('xms', 20000))]
    if os.path.exists(out):
        os.remove(out)
    # the engine keeps the limit itself; this only catches a solver that ignores its own
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), text=True, start_new_session=True)
    end = time.time() + time_s + 60
    while p.poll() is None:
        if time.time() > end or (stop is not None and stop.is_set()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return None
        time.sleep(0.05)
    try:
        return json.load(open(out))
    except Exception:
        raise CheckError('engine failed on %s %s (%d): %s' % (job['entry'], job['params'], p.returncode, open(out + '.err').read()[-1500:]))


def native(cases):
    """Run (entry, params, inputs) cases in the natively compiled program; returns lists of output lines."""
    if not cases:
        return []
    lines = []
    for e, p, i in cases:
        lines.append('%s %s %s' % (e, ','.join(map(str, p)) or '-', ','.join(map(str, i)) or '-'))
    r = subprocess.run([REPLAY], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    res, cur = [], None
    for l in r.stdout.splitlines():
        if l.startswith('BEGIN '):
            cur = []
            res.append(cur)
        elif cur is not None:
            cur.append(l)
    for c in res:
        # ended by its alarm: does not end by itself
        if c and c[-1] == 'E crashed-14' and [l for l in c if l.startswith('M ')][-1:] == ['M 1']:
            c.append('V no-panic')
    if len(res) != len(cases):
        raise CheckError('replay produced %d results for %d cases: %s' % (len(res), len(cases), r.stderr[-500:]))
    return res
