#!/usr/bin/env python3
"""Builds the harnesses from /repo's current working tree into /verif/_build.

usage: build.py TARGET...     (TARGET: a path under the build directory, see
                               gen(); e.g. bin/c01, bin/visqol)
Everything of /repo is compiled here, together with stand-ins for the two
libraries that are not installed (pffft, TensorFlow Lite; see shim/).
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', VERIF + '/_build')

ABSL = ('absl_base absl_raw_logging_internal absl_flags absl_flags_parse '
        'absl_flags_usage absl_memory absl_status absl_statusor absl_strings '
        'absl_synchronization absl_optional absl_span protobuf').split()

# Calls of the code under test that the controlled scheduler takes over.
WRAP = ('_ZN4absl7debian35Mutex4LockEv _ZN4absl7debian35Mutex6UnlockEv _ZN4absl7debian35Mutex10ReaderLockEv '
        '_ZN4absl7debian35Mutex12ReaderUnlockEv _ZN4absl7debian35Mutex7TryLockEv _ZN4absl7debian35Mutex13ReaderTryLockEv '
        'pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock '
        'pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once __cxa_guard_acquire __cxa_guard_release '
        '__cxa_guard_abort _ZN4absl7debian37CondVar4WaitEPNS0_5MutexE _ZN4absl7debian37CondVar6SignalEv '
        '_ZN4absl7debian37CondVar9SignalAllEv memcpy memmove memset svm_load_model').split()

VARIANTS = {
    # Like the official build, plus standard-library bounds assertions.
    'fast': ('-O2 -DNDEBUG -flto=auto', '-O2 -flto=auto'),
    # Memory errors, undefined integer behaviour and library preconditions trap.
    'asan': ('-O2 -flto=auto -D_GLIBCXX_ASSERTIONS -fsanitize=address,bounds,'
             'signed-integer-overflow,integer-divide-by-zero,shift,vla-bound,null '
             '-fno-sanitize-recover=all -fno-omit-frame-pointer',
             '-O2 -flto=auto -fsanitize=address,undefined'),
    # Instrumented memory accesses, bound to our own controlled scheduler.
    'sched': ('-O2 -g1 -DNDEBUG -fsanitize=thread', '-rdynamic ' + ' '.join('-Wl,--wrap,' + s for s in WRAP)),
}


def sh(*a):
    return subprocess.check_output(a, text=True).strip()


def gen():
    os.makedirs(B, exist_ok=True)
    out = []
    w = out.append
    libs = sh('pkg-config', '--libs', *ABSL)
    inc = (f'-I{REPO}/src/include -I{REPO}/src/svr_training -I{REPO} -I{B}/gen '
           f'-I{VERIF}/shim/pffft -I{VERIF}/shim/tflite -I{VERIF} '
           f'-I/usr/include/libsvm')
    w('builddir = %s' % B)
    w('rule cxx\n  command = g++ -std=c++17 -w $flags -DARMA_DONT_USE_WRAPPER '
      '%s $pch -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % inc)
    w('rule pch\n  command = g++ -std=c++17 -w $flags -DARMA_DONT_USE_WRAPPER '
      '%s -MMD -MF $out.d -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc' % inc)
    w('rule cp\n  command = cp $in $out')
    w('rule ar\n  command = rm -f $out && gcc-ar crs $out $in')
    w('rule link\n  command = g++ $lflags -o $out $in $libs')
    w('rule protoc\n  command = protoc --cpp_out=%s/gen -I%s $in' % (B, REPO))
    pb = []
    pbh = []
    for p in sorted(glob.glob(REPO + '/src/proto/*.proto')):
        n = os.path.basename(p)[:-6]
        o = f'{B}/gen/src/proto/{n}.pb'
        w(f'build {o}.cc {o}.h: protoc {p}')
        pb.append(o + '.cc')
        pbh.append(o + '.h')
    srcs = sorted(glob.glob(REPO + '/src/*.cc') + glob.glob(REPO + '/src/svr_training/*.cc'))
    srcs = [s for s in srcs if not s.endswith('/main.cc')]
    shim = [VERIF + '/shim/pffft/pffft.cc', VERIF + '/shim/tflite/tensorflow/lite/shim.cc']
    tail = f'{libs} -lsvm -lpthread -ldl -latomic'

    made = set()

    def obj(v, s, flags):
        o = f'{B}/{v}/' + s.strip('/').replace('/', '_') + '.o'
        if o in made:
            return o
        made.add(o)
        ph = f'{B}/{v}/pch.h'
        w(f'build {o}: cxx {s} | {ph}.gch || {" ".join(pbh)}\n  flags = {flags}\n'
          f'  pch = -include {ph}')
        return o

    def plain(s):
        o = f'{B}/plain/' + s.strip('/').replace('/', '_') + '.o'
        if o not in made:
            made.add(o)
            w(f'build {o}: cxx {s}\n  flags = -O2 -g1 -fno-builtin')
        return o

    for v, (flags, lflags) in VARIANTS.items():
        w(f'build {B}/{v}/pch.h: cp {VERIF}/tools/pch.h')
        w(f'build {B}/{v}/pch.h.gch: pch {B}/{v}/pch.h\n  flags = {flags}')
        objs = [obj(v, s, flags) for s in srcs + pb + shim]
        w(f'build {B}/{v}/libv.a: ar {" ".join(objs)}')
        mo = obj(v, REPO + '/src/main.cc', flags)
        if v == 'sched':  # only linked with the scheduler's runtime
            continue
        w(f'build {B}/bin/visqol_{v}: link {mo} {B}/{v}/libv.a\n  lflags = {lflags}\n  libs = {tail}')

    # Harness programs.  A first line "// variant: asan" picks the variant.
    mc = [VERIF + '/mc/' + f for f in ('explorer.cc',)]
    for c in sorted(glob.glob(VERIF + '/checks/*.cc')):
        n = os.path.basename(c)[:-3]
        head = open(c).readline()
        vs = head.split('variant:')[1].split() if 'variant:' in head else ['fast']
        for v in vs:
            flags, lflags = VARIANTS[v]
            objs = [obj(v, s, flags) for s in [c] + mc]
            if v == 'sched':
                objs += [obj(v, VERIF + '/mc/sched.cc', flags), plain(VERIF + '/mc/sched_rt.cc')]
            w(f'build {B}/bin/{n}_{v}: link {" ".join(objs)} {B}/{v}/libv.a\n'
              f'  lflags = {lflags}\n  libs = {tail}')
    text = '\n'.join(out) + '\n'
    f = B + '/build.ninja'
    if not os.path.exists(f) or open(f).read() != text:
        open(f, 'w').write(text)


def build(targets):
    """Returns (ok, log)."""
    gen()
    r = subprocess.run(['ninja', '-C', B, '-j', str(os.cpu_count() or 8)] +
                       [B + '/' + t for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [l for l in r.stdout.splitlines()
             if not l.startswith(('[', 'g++ ', 'ninja: Entering'))]
    return r.returncode == 0, '\n'.join(lines[:60]) + '\n'


if __name__ == '__main__':
    ok, log = build(sys.argv[1:])
    sys.stdout.write('' if ok else log[-6000:])
    sys.exit(0 if ok else 2)
