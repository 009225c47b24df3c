"""Compile a harness together with the library's current sources to LLVM IR."""
import glob
import os
import subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18'


def sources():
    r = []
    for p in sorted(glob.glob(REPO + '/ink_stroke_modeler/**/*.cc', recursive=True)):
        b = os.path.basename(p)
        if b.endswith('_test.cc') or 'fuzz' in b or 'test' in p[len(REPO):].split('/') or b.startswith('type_matchers') or 'benchmark' in b:
            continue
        r.append(p)
    return r


def write_lib_inc(d):
    with open(d + '/lib.inc', 'w') as f:
        for p in sources():
            f.write('#include "%s"\n' % p)


COMMON = ['-std=c++20', '-ffp-contract=off', '-fno-access-control', '-Wno-undefined-var-template', '-Wno-everything']


def compile_ir(spec, d, extra=()):
    """-> (path of .ll or None, error text)"""
    write_lib_inc(d)
    out = os.path.join(d, os.path.basename(spec) + '.ll')
    cmd = [CXX, *COMMON, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-D_GLIBCXX_ASSERTIONS', '-DVC_SYM', '-I' + HERE + '/shim/sym',
           '-I' + HERE + '/shim/common', '-I' + HERE + '/specs', '-I' + d, '-I' + REPO, *extra, '-S', '-emit-llvm', spec, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return out, ''


def compile_native(spec, d, harness, extra=(), san=False):
    write_lib_inc(d)
    out = os.path.join(d, os.path.basename(spec) + '.' + harness + ('.san' if san else '') + '.exe')
    main = os.path.join(d, harness + '.main.cc')
    with open(main, 'w') as f:
        f.write('#include "%s"\nint main(int c, char** v) { return vc_native_main(c, v, [] { %s(); }); }\n' % (spec, harness))
    cmd = [CXX, *COMMON, '-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-I' + HERE + '/shim/common', '-I' + HERE + '/specs', '-I' + d, '-I' + REPO, *extra]
    if san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=all']
    cmd += [main, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return out, ''
