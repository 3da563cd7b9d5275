"""Builds everything a check needs, from /repo's current working tree:
the symbolic execution engine, the LLVM IR of harness + magmaflow + the standard
library, and the native replay binary."""
import os, re, shutil, subprocess, sys, glob, hashlib, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TC = 'stable-x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd[:6]), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e


def sysroot():
    return run(['rustc', '--print', 'sysroot'], env=env()).strip()


def build_engine(d):
    run(['cargo', 'build', '--release', '--offline', '--quiet'], env=env(CARGO_TARGET_DIR=d + '/engine'),
        cwd=VERIF + '/engine')
    return d + '/engine/release/symex'


def build_std(d, root):
    """bitcode of core, alloc, std and hashbrown out of the installed rlibs"""
    lib = root + '/lib/rustlib/x86_64-unknown-linux-gnu/lib'
    tools = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
    out = d + '/std'
    os.makedirs(out, exist_ok=True)
    res = []
    for c in ('core', 'alloc', 'std', 'hashbrown'):
        rlib = glob.glob('%s/lib%s-*.rlib' % (lib, c))[0]
        for o in run(['ar', 't', rlib]).split():
            if not o.endswith('.o'):
                continue
            data = subprocess.run(['ar', 'p', rlib, o], stdout=subprocess.PIPE, check=True).stdout
            op = '%s/%s.o' % (out, hashlib.sha1((c + o).encode()).hexdigest()[:12])
            open(op, 'wb').write(data)
            bc = op[:-2] + '.bc'
            p = subprocess.run([tools + '/llvm-objcopy', '--dump-section', '.llvmbc=' + bc, op, '/dev/null'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.remove(op)
            if p.returncode == 0 and os.path.getsize(bc) > 0:
                res.append(bc)
    return res


def build_bc(d, features=()):
    t = d + '/ht'
    shutil.rmtree(t, ignore_errors=True)
    fl = '--emit=llvm-bc -C embed-bitcode=yes -C no-prepopulate-passes -Zinline-mir=no -Zshare-generics=no --cap-lints=allow'
    run(['cargo', 'build', '--release', '--lib', '--offline', '--quiet', '--features', ','.join(features)],
        env=env(CARGO_TARGET_DIR=t, RUSTFLAGS=fl, RUSTC_BOOTSTRAP='1'), cwd=VERIF + '/harness')
    return glob.glob(t + '/release/deps/*.bc')


def build_replay(d, features=()):
    t = d + '/native'
    run(['cargo', 'build', '--release', '--bin', 'replay', '--offline', '--quiet', '--features', ','.join(features)],
        env=env(CARGO_TARGET_DIR=t, RUSTFLAGS='--cap-lints=allow'), cwd=VERIF + '/harness')
    return t + '/release/replay'


def cut(src, dst):
    """Replaces the bodies of the panic entry points by a call that stops the path as a
    violation, and of SipHash by the engine's (a constant, or any function: the map compares
    the keys themselves)."""
    lines = open(src).read().split('\n')
    out = []
    i = 0
    n = 0
    while i < len(lines):
        l = lines[i]
        if not l.startswith('define'):
            out.append(l)
            i += 1
            continue
        j = i
        while lines[j] != '}':
            j += 1
        name = re.search(r'@("?[^"(]+"?)\(', l).group(1)
        body = None
        if '4core9panicking' in name or 'rust_begin_unwind' in name:
            body = ['  call void @sym_panic()', '  unreachable']
        elif '3sip' in name or 'DefaultHasher' in name:
            a = re.findall(r'%[\w.]+(?=[,)])', l)
            if '6Hasher6finish' in name:
                body = ['  %%h = call i64 @sym_hash(ptr %s)' % a[0], '  %r = call i64 @sym_conc(i64 %h)', '  ret i64 %r']
            elif ('6Hasher5write' in name or '6Hasher9write_str' in name) and len(a) == 3:
                body = ['  call void @sym_hash_write(ptr %s, ptr %s, i64 %s)' % tuple(a), '  ret void']
        if body:
            n += 1
            out += [re.sub(r' personality ptr @\S+', '', l), 'start:'] + body + ['}']
        else:
            out += lines[i:j + 1]
        i = j + 1
    for d in ('void @sym_panic()', 'i64 @sym_hash(ptr)', 'void @sym_hash_write(ptr, ptr, i64)', 'i64 @sym_conc(i64)'):
        if not any(l.startswith('declare') and d.split('(')[0].split(' ')[1] + '(' in l for l in out):
            out.append('declare ' + d)
    open(dst, 'w').write('\n'.join(out) + '\n')
    return n


def build_ir(d, entries, std, bcs, root):
    b = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
    run([b + '/llvm-link'] + sorted(std) + sorted(bcs) + ['-o', d + '/all.bc'])
    run([b + '/opt', '-passes=internalize,globaldce,strip-dead-prototypes', '-strip-debug',
         '-internalize-public-api-list=' + ','.join(entries), d + '/all.bc', '-S', '-o', d + '/red0.ll'])
    cut(d + '/red0.ll', d + '/red1.ll')
    run([b + '/opt', '-passes=globaldce,default<O1>', d + '/red1.ll', '-S', '-o', d + '/red.ll'])
    os.remove(d + '/red0.ll')
    os.remove(d + '/red1.ll')
    os.remove(d + '/all.bc')
    return d + '/red.ll'


def build_all(d, entries, log=lambda s: None):
    features = ['value'] if 'h_text_value' in entries else []
    t0 = time.time()
    os.makedirs(d, exist_ok=True)
    root = sysroot()
    with ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine, VERIF + '/build')
        fs = ex.submit(build_std, VERIF + '/build', root)
        fb = ex.submit(build_bc, d, features)
        fn = ex.submit(build_replay, d, features)
        ll = build_ir(d, entries, fs.result(), fb.result(), root)
        r = dict(engine=fe.result(), replay=fn.result(), ll=ll)
    r['build_s'] = time.time() - t0
    return r


if __name__ == '__main__':
    os.makedirs(VERIF + '/build', exist_ok=True)
    build_engine(VERIF + '/build')
    build_std(VERIF + '/build', sysroot())
    print('ok')
