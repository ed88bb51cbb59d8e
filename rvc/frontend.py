"""C -> LLVM IR of /repo's current sources.  The wrapper TU only #includes the real .c file and
appends offsetof/sizeof constants, so the IR that is verified is generated from the file that is
compiled into the library, on every run."""
import os, subprocess, tempfile, hashlib
from . import llir

REPO = os.environ.get('RVC_REPO', '/repo')
CONFIG = '''#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define HAVE_LIBNUMA 1
'''
class FrontendError(Exception): pass

def compile_ir(src, extra='', defines=(), workdir=None, keep=False, passes='sroa,early-cse,simplifycfg,loop-simplify'):
    d = workdir or tempfile.mkdtemp(prefix='rvc.')
    os.makedirs(d, exist_ok=True)
    wrap = os.path.join(d, 'wrap.c')
    with open(os.path.join(d, 'rvc_config.h'), 'w') as f: f.write(CONFIG)
    with open(wrap, 'w') as f: f.write('#include "%s"\n#include <stddef.h>\n%s\n' % (os.path.join(REPO, src), extra))
    ll = os.path.join(d, 'a.ll'); l2 = os.path.join(d, 'b.ll')
    cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-fno-discard-value-names', '-std=gnu11',
           '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-include', os.path.join(d, 'rvc_config.h'),
           '-S', '-emit-llvm', wrap, '-o', ll, '-w'] + list(defines)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise FrontendError(r.stderr[:4000])
    r = subprocess.run(['opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt', '-S', '-passes=' + passes, ll, '-o', l2], capture_output=True, text=True)
    if r.returncode: raise FrontendError(r.stderr[:4000])
    text = open(l2).read()
    m = llir.parse(text)
    m.text = text
    if not workdir and not keep:
        subprocess.run(['rm', '-rf', d])
    return m

def consts(m, prefix='__rvc_'):
    out = {}
    for n, g in m.globals.items():
        if n[1:].startswith(prefix) and g['init'] and g['init'][0] in ('int', 'zero'):
            out[n[1 + len(prefix):]] = g['init'][1] if g['init'][0] == 'int' else 0
    return out
