"""Builds the exporter, exports MIR of the current /repo tree with the contracts of one property,
and builds the native runner for the same contracts."""
import os, subprocess, shutil, re, hashlib, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DYON_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
FEATURES = 'dynload,debug_lookup,threading,file,stdio,rand'
HOOKS = ['lib', 'runtime', 'link', 'lifetime', 'ast', 'dyon_std', 'module', 'ty', 'write', 'data']
VIS = {'lib': 'crate::verif', 'runtime': 'crate::runtime::verif', 'link': 'crate::link::verif', 'lifetime': 'crate::lifetime::verif', 'ast': 'crate::ast::verif',
       'dyon_std': 'crate::dyon_std::verif', 'module': 'crate::module::verif', 'ty': 'crate::ty::verif', 'write': 'crate::write::verif', 'data': 'crate::dyon_std::data::verif'}


class BuildError(Exception):
    def __init__(self, msg, out=''):
        super().__init__(msg)
        self.out = out


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.update(kw)
    return e


def sh(cmd, **kw):
    kw.setdefault('env', env())
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def mirex_bin():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'mirex', 'mirex.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirex-' + h)
    if not os.path.exists(out):
        tmp = '%s.%d' % (out, os.getpid())
        rc, o = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp])
        if rc:
            raise BuildError('exporter does not build:\n' + o[-3000:])
        os.rename(tmp, out)
    return out


DROPPED = {}     # property -> contracts that do not compile against the current tree


def drop_fn(body, name):
    """removes contract `name` from a hook's text (function and table entry)"""
    body = re.sub(r'(?ms)^pub fn %s\(.*?^}\n' % re.escape(name), '', body)
    return re.sub(r'\b%s\s*:\s*\([^;]*?\);' % re.escape(name), '', body)


def learn_drops(prop, out, cd):
    """from the compiler's errors: which contracts can no longer be stated; False when none can be blamed"""
    new = set()
    for blk in re.split(r'(?m)^(?=error)', out):
        if not blk.startswith('error'):
            continue
        for f, ln in re.findall(r'--> (\S+?):(\d+):\d+', blk):
            if not os.path.abspath(f).startswith(cd + os.sep):
                continue
            hook = os.path.basename(f)[:-3]
            lines = open(f).read().split('\n')
            k = min(int(ln), len(lines)) - 1
            name = None
            while k >= 0:
                m = re.match(r'(?:pub )?fn (\w+)', lines[k])
                if m:
                    name = m.group(1)
                    break
                if lines[k] == '}' and k < int(ln) - 1:
                    break
                k -= 1
            if name and re.match(r'(vc|nc|kf)_', name):
                new.add((hook, name))
            elif hook != 'lib':
                new.add((hook, '*'))
            break
    old = DROPPED.setdefault(prop, set())
    old |= new
    if new and os.environ.get('MIRVER_DEV'):
        sys.stderr.write('DROPPED %s\n%s\n' % (sorted(new), out[-3000:]))
    return bool(new)


def contract_dir(prop, pre='c-'):
    """directory with one file per hook"""
    src = os.path.join(VERIF, 'contracts', prop)
    dst = os.path.join(BUILD, pre + prop)
    os.makedirs(dst, exist_ok=True)
    tables = []
    mac = open(os.path.join(VERIF, 'contracts', 'macros.rs')).read()
    gone = DROPPED.get(prop, set())
    for h in HOOKS:
        p = os.path.join(src, h + '.rs')
        body = open(p).read() if os.path.exists(p) else ''
        if (h, '*') in gone:
            body = ''
        for hh, name in gone:
            if hh == h and name != '*':
                body = drop_fn(body, name)
        for inc in re.findall(r'^//@include (\S+)$', body, re.M):
            body = body.replace('//@include ' + inc, open(os.path.join(VERIF, 'contracts', inc)).read())
        if 'native!' in body:
            tables.append(h)
            body = mac + body
        if h == 'lib':
            lib = body
        else:
            put(os.path.join(dst, h + '.rs'), body)
    body = open(os.path.join(VERIF, 'contracts', 'prelude.rs')).read()
    if lib:
        body += '\npub mod c {\nuse crate::*;\nuse crate::verif::*;\n' + lib + '\n}\n'
    body += '\npub fn all_natives() -> Vec<(&\'static str, NativeFn)> {\n    let mut v = vec![];\n'
    for h in tables:
        body += '    v.extend(%s::native_table());\n' % ('c' if h == 'lib' else VIS[h])
    body += '    v\n}\n'
    put(os.path.join(dst, 'lib.rs'), body)
    return dst


def put(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    open(p, 'w').write(s)


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'])[1].strip()


def with_drops(f, prop):
    """builds; contracts that do not compile against the current tree (renamed or re-typed functions) are left out"""
    for _ in range(6):
        try:
            return f(prop)
        except BuildError as e:
            if not learn_drops(prop, e.out, os.path.join(BUILD, ('cn-' if f is native1 else 'c-') + prop)):
                raise
    return f(prop)


def export(prop):
    return with_drops(export1, prop)


def native(prop):
    return with_drops(native1, prop)


def export1(prop):
    mx = mirex_bin()
    cd = contract_dir(prop)
    out = os.path.join(BUILD, prop + '.mir.json')
    if os.path.exists(out):
        os.remove(out)
    td = os.path.join(BUILD, 't-export')
    # force re-check of the dyon crate (its sources are seen through the contracts' include!)
    lock = os.path.join(BUILD, 'export.lock')
    import fcntl
    with open(lock, 'w') as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        for d in (os.path.join(td, 'debug', '.fingerprint'),):
            if os.path.isdir(d):
                for x in os.listdir(d):
                    if x.startswith('dyon-'):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        shutil.rmtree(os.path.join(td, 'debug', 'build', 'dyon'), ignore_errors=True)
        e = env(MIREX_OUT=out, LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=mx, DYON_VERIF_DIR=cd,
                RUSTFLAGS='--cfg dyon_verif -Awarnings -Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=on')
        rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--no-default-features', '--features', FEATURES, '--target-dir', td, '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=e)
    if rc or not os.path.exists(out):
        raise BuildError('export of %s failed:\n%s' % (prop, o[-4000:]), o)
    return out


def native1(prop):
    cd = contract_dir(prop, 'cn-')
    td = os.path.join(BUILD, 't-native')
    nd = os.path.join(BUILD, 'n-' + prop)
    os.makedirs(os.path.join(nd, 'src'), exist_ok=True)
    put(os.path.join(nd, 'Cargo.toml'), '[package]\nname = "n-%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies.dyon]\npath = "%s"\ndefault-features = false\nfeatures = [%s]\n[profile.dev]\nopt-level = 1\ndebug = 0\n[profile.dev.package.piston_meta]\nopt-level = 3\n[profile.dev.package.read_token]\nopt-level = 3\n' % (
        prop.lower(), REPO, ','.join('"%s"' % f for f in FEATURES.split(','))))
    put(os.path.join(nd, 'src', 'main.rs'), open(os.path.join(VERIF, 'native', 'main.rs')).read())
    lk = os.path.join(VERIF, 'native', 'Cargo.lock')
    if os.path.exists(lk) and not os.path.exists(os.path.join(nd, 'Cargo.lock')):
        put(os.path.join(nd, 'Cargo.lock'), open(lk).read().replace('n-template', 'n-' + prop.lower()))
    e = env(DYON_VERIF_DIR=cd, RUSTFLAGS='--cfg dyon_verif -Awarnings', CARGO_TARGET_DIR=td)
    rc, o = sh(['cargo', 'build', '--offline', '--manifest-path', os.path.join(nd, 'Cargo.toml')], env=e)
    if rc:
        raise BuildError('native runner of %s does not build:\n%s' % (prop, o[-4000:]), o)
    return os.path.join(td, 'debug', 'n-' + prop.lower())


if __name__ == '__main__':
    import sys
    if sys.argv[1] == "setup":
        mirex_bin()
    elif sys.argv[1] == "export":
        print(export(sys.argv[2]))
    else:
        print(native(sys.argv[2]))
