"""Compile /repo's current sources to LLVM IR in a scratch directory and load them.

The only programs executed are compilers and the repository's own microcode header
generators (cros2030/cros2050/cros2844: text -> C header, the same step its build does)."""
import os, subprocess, tempfile, shutil, atexit, sys, glob, json, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import ir

REPO = os.environ.get('SA_REPO', '/repo')
SRC = REPO + '/src'

class BuildError(Exception): pass

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode: raise BuildError('%s: %s' % (' '.join(cmd[:6]), p.stderr.decode('latin-1')[-600:]))
    return p

class Tree:
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='sa_ir.')
        atexit.register(shutil.rmtree, s.dir, True)
        s.inc = os.path.join(s.dir, 'inc'); os.mkdir(s.inc)
        with open(s.inc + '/config.h', 'w') as f:
            t = open(SRC + '/config.h.in').read()
            import re
            t = re.sub(r'@\w+@', '0', t); t = re.sub(r'#cmakedefine (\w+)', r'#define \1', t)
            f.write(t)
        if not glob.glob(SRC + '/**/tape_images.xpm', recursive=True):
            # artwork missing from the tree; declare an empty image so the file still parses
            open(s.inc + '/tape_images.xpm', 'w').write('static char *tape_images[] = { "1 1 1 1", "a c #000000", "a" };\n'
                'static char *tape_images_xpm[] = { "1 1 1 1", "a c #000000", "a" };\n')
        for gen, txt, hdr in (('model2030/cros2030', 'model2030/ccros2030.txt', 'model2030_ros.h'),
                              ('model2050/cros2050', 'model2050/cros2050.txt', 'model2050_ros.h'),
                              ('model2844/cros2844', 'model2844/model2844_ros.txt', 'model2844_ros.h')):
            try: s.ros(gen, txt, hdr)
            except BuildError as e: s.__dict__.setdefault('ros_err', {})[hdr] = str(e)
        s.mods = {}
    def ros(s, gen, txt, hdr):
        if not os.path.exists(SRC + '/' + txt):
            c = glob.glob(SRC + '/' + os.path.dirname(txt) + '/*ros*.txt')
            txt = os.path.relpath(c[0], SRC) if c else txt
        exe = s.dir + '/' + os.path.basename(gen)
        _run(['gcc', '-w', '-I', SRC + '/' + os.path.dirname(gen), '-I', SRC + '/device', '-I', SRC, '-I', s.inc, '-o', exe, SRC + '/' + gen + '.c'])
        _run([exe, SRC + '/' + txt, s.inc + '/' + hdr], cwd=s.dir)
    def compile(s, rel):
        out = os.path.join(s.dir, rel.replace('/', '_') + '.ll')
        if os.path.exists(out): return out
        incs = [s.inc, SRC] + [SRC + '/' + d for d in ('image', 'panel', 'device', 'model1052', 'model2030', 'model2050', 'model2844',
                                                       'model1442', 'model1443', 'model2415', 'model2050/images')] + ['/usr/include/SDL2']
        cmd = ['clang', '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-DDEBUG', '-w', '-fno-discard-value-names',
               '-c', '-emit-llvm', '-o', out + '.0'] + ['-I' + i for i in incs] + [SRC + '/' + rel]
        _run(cmd)
        _run(['opt', '-passes=sroa', '-S', out + '.0', '-o', out])
        return out
    def load(s, rels):
        rels = list(rels)
        with ThreadPoolExecutor(8) as ex: paths = list(ex.map(s.compile, rels))
        for r, p in zip(rels, paths):
            if r not in s.mods: s.mods[r] = ir.Module(p, SRC + '/' + r)
        return {r: s.mods[r] for r in rels}

DEVICE = ['device/card.c', 'device/disassem.c', 'device/device.c', 'device/tape.c', 'device/xlat.c', 'device/dasd.c', 'device/cpu.c']
TOP = ['logger.c', 'event.c', 'conf.c']

def all_sources():
    """every .c the product build compiles (tests and stand-alone generator tools excluded)"""
    r = TOP + ['main.c'] + DEVICE
    for d in ('panel', 'model1052', 'model1442', 'model1443', 'model2030', 'model2050', 'model2415', 'model2844'):
        for f in sorted(glob.glob(SRC + '/' + d + '/*.c')):
            b = os.path.basename(f)
            if b.startswith(('cros', 'pr_cros')) or b == 'model1050.c': continue
            r.append(d + '/' + b)
    return [x for x in r if os.path.exists(SRC + '/' + x)]
