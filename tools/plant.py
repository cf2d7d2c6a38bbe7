#!/usr/bin/env python3
"""plant.py ID... [--checks C01,C02] [--nodemo]: try planted bugs in a scratch copy of /repo under /tmp/plant
(never in /repo): does it build, do the tests pass, does the demonstration tell the trees apart,
which checks catch it.  Prints one line per bug."""
import json, os, re, shutil, subprocess, sys, time
W = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_HOME='/root/.cargo',
           CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HOME='/root')

def sh(cmd, cwd, timeout=900, **kw):
    e = dict(ENV, **kw)
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace')

def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + '/repo'):
        sh('git clone -q /repo %s/repo' % W, '/tmp')
    sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e target', W + '/repo')
    os.makedirs(W + '/mc', exist_ok=True)
    sh('rsync -a --delete /verif/mc/src %s/mc/ 2>/dev/null || (cp -a /verif/mc/src %s/mc/)' % (W, W), '/tmp')
    sh('find src -name "*.rs" | xargs touch', W + '/mc'); shutil.copy('/verif/mc/Cargo.lock', W + '/mc/Cargo.lock')
    t = open('/verif/mc/Cargo.toml').read().replace('"/repo"', '"%s/repo"' % W)
    open(W + '/mc/Cargo.toml', 'w').write(t)

def mcbuild():
    # touch the sources: git may restore old mtimes
    sh('find src -name "*.rs" | xargs touch', W + '/repo')
    return sh('cargo build --release --offline --locked', W + '/mc', CARGO_TARGET_DIR=W + '/mctarget')

def check(prop):
    t = time.time()
    r, o = sh([W + '/mctarget/release/mc', 'check', prop, '--tier', 'quick', '--root', W + '/out'], W, timeout=900)
    return r, o, time.time() - t

def tests():
    r, o = sh('cargo test --offline --lib --no-run', W + '/repo', CARGO_TARGET_DIR=W + '/rtarget')
    if r: return 'BUILD-FAILS ' + o[-600:]
    r, o = sh('cargo test --offline --lib -- --test-threads 8', W + '/repo', CARGO_TARGET_DIR=W + '/rtarget', timeout=300)
    if r: return 'TESTS-FAIL ' + ' '.join(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)) + ('' if r != 124 else ' timeout')
    r, o = sh('cargo test --offline --lib -- --ignored --skip schoof:: --skip secp256k1::', W + '/repo', CARGO_TARGET_DIR=W + '/rtarget', timeout=300)
    if r: return 'IGNORED-TESTS-FAIL ' + ' '.join(re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)) + ('' if r != 124 else ' timeout')
    return ''

def main():
    import fcntl
    os.makedirs(W, exist_ok=True); lk = open(W + "/lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    extra = [a.split('=', 1)[1].split(',') for a in sys.argv if a.startswith('--checks=')]
    extra = extra[0] if extra else []
    nodemo = '--nodemo' in sys.argv
    setup()
    for i in ids:
        d = '/verif/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        sh('git checkout -q -- .', W + '/repo')
        msgs = []
        if not nodemo:
            r, o = sh(['bash', d + '/demo.sh'], W + '/repo', timeout=300)
            if r: msgs.append('DEMO-FAILS-ON-CLEAN(%d) %s' % (r, o[-500:]))
        r, o = sh('git apply %s/patch.diff' % d, W + '/repo')
        if r:
            print(i, 'PATCH-DOES-NOT-APPLY', o, flush=True); continue
        if not nodemo:
            r, o = sh(['bash', d + '/demo.sh'], W + '/repo', timeout=300)
            if r == 0: msgs.append('DEMO-PASSES-WITH-BUG')
            elif 'error[' in o or 'could not compile' in o: msgs.append('DEMO-COMPILE ' + o[-800:])
            m = tests()
            if m: msgs.append(m)
        r, o = mcbuild()
        if r: print(i, 'MC-BUILD', o[-600:], flush=True); continue
        for p in [meta['property']] + extra:
            r, o, t = check(p)
            l = [x for x in o.splitlines() if x.strip()]
            msgs.append('%s:%s(%.0fs) %s' % (p, {0: 'MISSED', 1: 'caught'}.get(r, 'rc%d' % r), t, (l[-1] if l else '')[:0 if r == 0 else 260]))
        print(i, ' | '.join(msgs), flush=True)
    sh('git checkout -q -- .', W + '/repo')
main()
