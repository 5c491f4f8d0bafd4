"""Builds and runs the bounded examination (harness/) in parallel shards."""
import atexit, fcntl, glob, hashlib, json, os, subprocess, sys, tempfile, shutil, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, 'build', 'harness')
CRATES = ('inner_products', 'dh_commitments', 'ip_proofs', 'sipp')
BIN = os.path.join(TARGET, 'debug', 'vp-harness')


def build(hooks=True, prop=None):
    """-> (binary or None, log). Rebuilt from /repo's working tree (cargo tracks the path dependencies)."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    env['RUSTFLAGS'] = '--cfg vp_hooks' if hooks else ''
    try:
        os.makedirs(TARGET, exist_ok=True)
        lock = open(os.path.join(ROOT, 'build', 'harness.lock'), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)   # released when the file is closed
        forget_stale()
        p = subprocess.run(['cargo', 'build', '--offline', '-q'] + (['--no-default-features', '--features', prop] if prop else []), cwd=os.path.join(ROOT, 'harness'), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except Exception as e:  # no cargo, no time: nothing to examine with
        return None, repr(e)
    if p.returncode != 0:
        return None, p.stdout
    # a copy of its own: another property's build may replace the original
    own = os.path.join(TARGET, 'vp-harness-%d' % os.getpid())
    shutil.copy2(BIN, own)
    atexit.register(lambda: os.path.exists(own) and os.unlink(own))
    lock.close()
    return own, p.stdout


def forget_stale():
    """cargo goes by modification times; here the contents of /repo's sources decide what is rebuilt"""
    h = hashlib.sha256()
    for c in CRATES:
        for d, ds, fs in sorted(os.walk(os.path.join('/repo', c))):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml')):
                    h.update(f.encode() + b'\0' + open(os.path.join(d, f), 'rb').read() + b'\0')
    stamp = os.path.join(TARGET, 'sources.sha256')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h.hexdigest():
        for x in glob.glob(os.path.join(TARGET, 'debug', '.fingerprint', 'ark-*')):
            n = os.path.basename(x).rsplit('-', 1)[0]
            if n in ('ark-inner-products', 'ark-dh-commitments', 'ark-ip-proofs', 'ark-sipp'):
                shutil.rmtree(x, ignore_errors=True)
        open(stamp, 'w').write(h.hexdigest())


def run(binary, prop, seed, tier, seconds, only=None, shards=8):
    tmp = tempfile.mkdtemp(prefix='vp-harness-')
    procs = []
    claims = os.path.join(tmp, 'claims')
    os.mkdir(claims)
    try:
        n = 1 if only else shards
        for k in range(n):
            out = os.path.join(tmp, '%d.json' % k)
            env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VP_HARNESS_SECONDS=str(seconds), VP_SHARD='%d/%d' % (k, n), VP_CLAIMS=claims)
            if n > 1:
                env['RAYON_NUM_THREADS'] = '2'
            cmd = [binary, prop, out] + (['--only', only] if only else [])
            err = open(os.path.join(tmp, '%d.err' % k), 'w')
            procs.append((k, out, subprocess.Popen(cmd, env=env, cwd=tmp, stdout=err, stderr=err), err))
        res = {'cases': 0, 'skipped': 0, 'hooks': True, 'seconds': 0.0, 'samples': [], 'known': [], 'violations': [], 'lost': []}
        end = time.time() + seconds + 150
        for k, out, p, err in procs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
            err.close()
            try:
                d = json.load(open(out))
            except Exception:
                # ended before writing its file (killed, out of memory, aborted)
                tail = open(os.path.join(tmp, '%d.err' % k)).read()[-600:]
                res['lost'].append('shard %d ended with %s: %s' % (k, rc, tail))
                continue
            res['cases'] += d['cases']
            res['skipped'] += d['skipped']
            res['hooks'] = res['hooks'] and d['hooks']
            res['seconds'] = round(res['seconds'] + d['seconds'], 1)
            res['samples'] += d['samples']
            res['known'] += [x for x in d['known'] if x not in res['known']]
            res['violations'] += d['violations']
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    b, log = build()
    if not b:
        sys.exit(log[-3000:])
    for p in sys.argv[1:]:
        t = time.time()
        r = run(b, p, int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VP_HARNESS_SECONDS', '120')))
        print(p, '%.0fs' % (time.time() - t), 'cases', r['cases'], 'skipped', r['skipped'], 'viol', r['violations'][:4], 'known', r['known'], r['lost'], flush=True)
