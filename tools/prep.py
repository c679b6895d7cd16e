#!/usr/bin/env python3
"""Builds what the checks need from /repo's current working tree: the LLVM IR module that ksx executes and the native
replay program, both from the same staged copy of /repo/src plus /verif/harness. Everything goes to /verif/build."""
import os, re, shutil, subprocess, sys, hashlib, fcntl, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MQTT_REPO', '/repo')
B = os.environ.get('MQTT_BUILD', os.path.join(V, 'build'))
KSX = os.path.join(B, 'ksx', 'release', 'ksx')
GROUPS = ['g_codec', 'g_conf', 'g_tree', 'g_sys']
TC = 'stable-x86_64-unknown-linux-gnu'
LLVM = os.path.expanduser(f'~/.rustup/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'CARGO_PROFILE_DEV_DEBUG'): ENV.pop(k, None)

def run(cmd, cwd=None, env=None, ok=True, timeout=850):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if ok and p.returncode: raise SystemExit2('command failed: %s\n%s' % (' '.join(map(str, cmd)), p.stdout[-6000:]))
    return p
class SystemExit2(Exception): pass

def files(d):
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs): yield os.path.join(r, f)
def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        for f in (files(p) if os.path.isdir(p) else [p]):
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

def build_ksx():
    d = digest([os.path.join(V, 'ksx', 'src'), os.path.join(V, 'ksx', 'Cargo.toml'), os.path.join(V, 'ksx', 'build.rs')])
    mark = os.path.join(B, 'ksx.digest')
    if os.path.exists(KSX) and os.path.exists(mark) and open(mark).read() == d: return
    run(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(V, 'ksx', 'Cargo.toml'), '--target-dir', os.path.join(B, 'ksx')])
    open(mark, 'w').write(d)

def stage():
    c = os.path.join(B, 'crate')
    os.makedirs(c, exist_ok=True)
    src = os.path.join(c, 'src')
    new = {}
    for f in files(os.path.join(REPO, 'src')): new[os.path.relpath(f, os.path.join(REPO, 'src'))] = open(f, 'rb').read()
    rel = os.path.relpath(os.path.join(V, 'harness', 'h', 'mod.rs'), src)
    new['main.rs'] += ('\n#[path = "%s"]\npub mod harness;\n' % rel).encode()
    # the remaining-length functions are private to `packets`: let the harness call them (optional group g_len)
    k = 'packets/mod.rs'
    if k in new: new[k] += b'\n#[cfg(feature = "g_len")]\npub mod verif_hook { pub use super::utils::{decode_length, encode_length}; }\n'
    if os.path.isdir(src):
        for f in list(files(src)):
            if os.path.relpath(f, src) not in new: os.remove(f)
    for n, t in new.items():
        p = os.path.join(src, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, 'rb').read() != t: open(p, 'wb').write(t)
    h = os.path.join(V, 'harness')
    toml = open(os.path.join(h, 'crate', 'Cargo.toml')).read().replace('../../harness', os.path.relpath(h, c))
    for n, t in (('Cargo.toml', toml), ('replay.rs', open(os.path.join(h, 'crate', 'replay.rs')).read()), ('Cargo.lock', open(os.path.join(h, 'Cargo.lock')).read())):
        p = os.path.join(c, n)
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
    return c

# functions that ksx executes itself, by the path in their mangled names
STUBS = [re.compile(x) for x in (
    r'7___rustc\d+___rust_(alloc|alloc_zeroed|dealloc|realloc)$',
    r'9panicking(9panic_fmt|11panic_fmt|13panic_nounwind)',
    r'4core9panicking(5panic|9panic_fmt|18panic_bounds_check|13assert_failed)',
)]
def stub(text):
    """Turns the bodies of functions that ksx intercepts into declarations, so that the optimiser cannot inline them."""
    out, skip = [], False
    pat = re.compile(os.environ.get('KSX_STUBS') or '|'.join(STUB_NAMES))
    for line in text.split('\n'):
        if skip:
            if line == '}': skip = False
            continue
        if line.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
            if m and pat.search(m.group(1)):
                l = re.sub(r'^define ((internal|private|hidden|linkonce_odr|weak|weak_odr|available_externally|dso_local|unnamed_addr|local_unnamed_addr|noundef) )*', lambda m: 'declare ', line)
                l = re.sub(r' (comdat(\([^)]*\))?|personality ptr @[\w.$]+|!dbg !\d+|align \d+|section "[^"]*") ?', ' ', l)
                l = re.sub(r'\s*(#\d+)?[^)]*\{\s*$', '', l)
                out.append(l); skip = True; continue
        out.append(line)
    return '\n'.join(out)
STUB_NAMES = [r'7___rustc\d*_+rust_(alloc|alloc_zeroed|dealloc|realloc)',
              r'_4core9panicking9panic_fmt$', r'std9panicking11begin_panic', r'6Hasher(5write|6finish|9write_str)']

def build_ir(groups, out):
    c = stage(); t = os.path.join(B, 'target')
    for f in os.listdir(os.path.join(t, 'release', 'deps')) if os.path.isdir(os.path.join(t, 'release', 'deps')) else []:
        if '.bc' in f and f.startswith(('mqtt_h', 'libmqtt_h')): os.remove(os.path.join(t, 'release', 'deps', f))
    for f in os.listdir(os.path.join(t, 'release', 'deps')) if os.path.isdir(os.path.join(t, 'release', 'deps')) else []:
        if 'mqtt_h' in f and not f.endswith('.d'): os.remove(os.path.join(t, 'release', 'deps', f))
    run(['cargo', 'rustc', '--offline', '--locked', '--release', '--lib', '--crate-type', 'staticlib', '--features', ','.join(groups), '--target-dir', t, '--', '-C', 'save-temps', '-A', 'warnings'], cwd=c)
    deps = os.path.join(t, 'release', 'deps')
    bc = [f for f in os.listdir(deps) if 'mqtt_h' in f and f.endswith('lto.after-restriction.bc')]
    if len(bc) != 1: raise SystemExit2('expected one LTO module, found %s' % bc)
    bc = os.path.join(deps, bc[0])
    names = []
    for f in os.listdir(os.path.join(V, 'harness', 'h')):
        names += re.findall(r'^\s+(h_\w+) =>', open(os.path.join(V, 'harness', 'h', f)).read(), re.M)
    w = os.path.join(B, 'w'); os.makedirs(w, exist_ok=True)
    run([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names), '-strip-debug', bc, '-o', w + '/a.bc'])
    run([LLVM + '/llvm-dis', w + '/a.bc', '-o', w + '/a.ll'])
    open(w + '/b.ll', 'w').write(stub(open(w + '/a.ll').read()))
    run([LLVM + '/opt', '-passes=globaldce,default<O1>', '-vectorize-loops=false', '-S', w + '/b.ll', '-o', out + '.tmp'])
    os.rename(out + '.tmp', out)
    for f in os.listdir(deps):
        if '.bc' in f and 'mqtt_h' in f: os.remove(os.path.join(deps, f))
    shutil.rmtree(w, ignore_errors=True)

def build_native(groups):
    c = stage(); t = os.path.join(B, 'native')
    run(['cargo', 'build', '--offline', '--locked', '--bin', 'replay', '--features', 'native,' + ','.join(groups), '--target-dir', t], cwd=c)
    return os.path.join(t, 'debug', 'replay')

def build(log=lambda s: None):
    """Everything, once per state of the sources. Returns {group: (ir file, replay program)}, or an error string for a group."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_ksx()
        d = digest([os.path.join(REPO, 'src'), os.path.join(V, 'harness'), os.path.abspath(__file__)])
        mark = os.path.join(B, 'done.json')
        if os.path.exists(mark):
            m = json.load(open(mark))
            if m['digest'] == d and all(not isinstance(v, list) or all(os.path.exists(x) for x in v) for v in m['groups'].values()): return m['groups']
        groups = [g for g in GROUPS if os.path.exists(os.path.join(V, 'harness', 'h', g[2:] + '.rs'))]
        def one(gs, tag):
            ir = os.path.join(B, 'ir-%s.ll' % tag)
            build_ir(gs, ir)
            nat = build_native(gs)
            dst = os.path.join(B, 'replay-%s' % tag); shutil.copy2(nat, dst + '.tmp'); os.rename(dst + '.tmp', dst)
            return [ir, dst]
        # hooks into parts whose interface may change without any behaviour changing: dropped when they do not build
        opt, res, err = ['g_len', 'g_stats'], None, ''
        for extra in (opt, ['g_stats'], ['g_len'], []):
            try: r = one(groups + extra, 'all'); res = {g: r for g in groups + extra}; break
            except SystemExit2 as e: err = str(e)[-2500:]; log('does not build with %s' % ' '.join(groups + extra))
        if res is None:
            log(err); log('trying group by group'); res = {}
            for g in groups:
                for extra in (['g_stats'], []) if g == 'g_sys' else ([],):
                    try: res[g] = one([g] + extra, g); res.update({x: res[g] for x in extra}); break
                    except SystemExit2 as e: res[g] = str(e)
        json.dump({'digest': d, 'groups': res}, open(mark, 'w'))
        return res

if __name__ == '__main__':
    t = time.time()
    try: r = build(print)
    except SystemExit2 as e: print(e); sys.exit(2)
    for g, v in r.items(): print(g, v if isinstance(v, list) else 'FAILED\n' + v)
    print('%.1f s' % (time.time() - t))
    sys.exit(0 if all(isinstance(v, list) for v in r.values()) else 2)
