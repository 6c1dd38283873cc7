#!/usr/bin/env python3
"""Content-addressed build of Gyoto (from /repo's working tree) and of the
property drivers.  Nothing is written in /repo.  Every object is keyed by the
hash of its source, of every header it can include and of the flags, so a
stale object can never be linked whatever the time stamps say.
"""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GYOTO_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CFG = os.path.join(VERIF, 'buildcfg')

CORE = '''Value Property Object Astrobj Factory Register SmartPointer Utils
Metric WIP Worldline Photon Scenery WorldlineIntegState Error Screen Spectrum
Spectrometer ComplexSpectrometer UniformSpectrometer StandardAstrobj ThinDisk
Converters Functors Hooks GridData2D FitsRW'''.split()
LORENE = '''LorenePlug NeutronStar NeutronStarAnalyticEmission
NeutronStarModelAtmosphere NumericalMetricLorene RotStar3_1'''.split()

CXX = os.environ.get('VERIF_CXX', 'mpic++')
VARIANTS = {
    'plain': (['-O1', '-g0'], []),
    'asan': (['-O1', '-g1', '-fno-omit-frame-pointer', '-fno-sanitize-recover=undefined',
              '-fsanitize=address,undefined', '-fno-sanitize=vptr'],
             ['-fsanitize=address,undefined']),
}
BASE = ['-std=c++17', '-fPIC', '-pthread', '-DHAVE_CONFIG_H', '-DGYOTO_NO_DEPRECATED',
        '-DGYOTO_PKGLIBDIR="/nonexistent/gyoto"', '-w']
INC = ['-I' + CFG, '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I/usr/include/flint']
LIBS = ['-lxerces-c', '-ludunits2', '-lcfitsio', '-lflint', '-lgmp', '-lmpfr',
        '-lboost_mpi', '-lboost_serialization', '-ldl', '-lpthread']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(d + '/*.h')):
            h.update(os.path.basename(f).encode()); h.update(read(f))
    return h.hexdigest()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + '\n'.join([l for l in p.stdout.split('\n') if 'error' in l][:20]) + '\n' + p.stdout[-800:])
    return p.stdout


def compile_obj(src, flags, hh, objdir):
    key = sha(read(src), hh, ' '.join(flags), src)
    obj = os.path.join(objdir, os.path.basename(src).rsplit('.', 1)[0] + '-' + key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        run([CXX, '-c'] + flags + [src, '-o', tmp])
        os.rename(tmp, obj)
    return obj


def link(out, objs, args):
    key = sha(*[os.path.basename(o) for o in objs], ' '.join(args))
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key:
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    run([CXX] + objs + ['-o', tmp] + args)
    os.rename(tmp, out)
    with open(stamp, 'w') as f:
        f.write(key)
    return out


def build(drivers=(), variant='plain', cli=False, pyplug=False, quiet=True):
    """Build the library, the standard plug-in and the named drivers.
    Returns the directory that holds them."""
    vflags, lflags = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    objdir = os.path.join(out, 'obj')
    os.makedirs(objdir, exist_ok=True)
    cflags = BASE + vflags + INC
    hh = headers_hash([REPO + '/include', CFG])
    hd = headers_hash([REPO + '/include', CFG, VERIF + '/harness'])
    std = sorted(n for n in (os.path.basename(f)[:-2] for f in glob.glob(REPO + '/lib/*.C'))
                 if n not in CORE and n not in LORENE)
    with ThreadPoolExecutor(8) as ex:
        # drivers first: they are the slowest to compile
        fd = {d: ex.submit(compile_obj, VERIF + '/harness/' + d + '.cpp', cflags + ['-I' + VERIF + '/harness'], hd, objdir)
              for d in drivers}
        fc = [ex.submit(compile_obj, REPO + '/lib/' + n + '.C', cflags, hh, objdir) for n in CORE]
        fs = [ex.submit(compile_obj, REPO + '/lib/' + n + '.C', cflags + ['-DGYOTO_PLUGIN=stdplug'], hh, objdir)
              for n in std]
        fcli = []
        if cli:
            hb = sha(hh, read(REPO + '/bin/optionparser.h'))
            fcli = [(n, ex.submit(compile_obj, REPO + '/bin/' + n + '.C', cflags + ['-I' + REPO + '/bin'], hb, objdir))
                    for n in ('gyoto', 'gyoto-mpi-worker')]
        core = [f.result() for f in fc]
        lib = link(out + '/libgyoto.so', core, ['-shared', '-Wl,-soname,libgyoto.so', '-pthread'] + lflags + LIBS)
        rp = ['-L' + out, '-Wl,-rpath,' + out]
        stdo = [f.result() for f in fs]
        link(out + '/libgyoto-stdplug.so', stdo,
             ['-shared', '-pthread', '-Wl,-soname,libgyoto-stdplug.so'] + rp + ['-lgyoto'] + lflags + LIBS)
        links = []
        for d in drivers:
            o = fd[d].result()
            links.append(ex.submit(link, out + '/' + d, [o],
                                   ['-pthread', '-Wl,--no-as-needed'] + rp + ['-lgyoto', '-lgyoto-stdplug'] + lflags + LIBS))
        for n, f in fcli:
            o = f.result()
            links.append(ex.submit(link, out + '/' + n, [o], ['-pthread', '-rdynamic'] + rp + ['-lgyoto'] + lflags + LIBS))
        for l in links:
            l.result()
    return out


if __name__ == '__main__':
    v = 'plain'
    args = sys.argv[1:]
    cli = '--cli' in args
    if '--asan' in args:
        v = 'asan'
    drivers = [a for a in args if not a.startswith('--')]
    try:
        print(build(drivers, v, cli))
    except BuildError as e:
        print(e); sys.exit(2)
