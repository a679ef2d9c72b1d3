"""Builds the analysed program: /repo's current sources + one driver -> IR facts (JSON)."""
import os, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-w', '-ffp-contract=off', '-include', 'stdint.h']


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def tool():
    """the IR fact extractor"""
    src = os.path.join(HERE, 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump')
    stamp = out + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(BUILD, exist_ok=True)
    inc = subprocess.run(['llvm-config-18', '--cppflags'], stdout=subprocess.PIPE, universal_newlines=True).stdout.split() or \
        ['-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
    run(['g++', '-O1', '-fno-rtti', '-std=c++17'] + inc + [src, '-o', out + '.tmp%d' % os.getpid(), '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], 'building irdump')
    os.replace(out + '.tmp%d' % os.getpid(), out)
    open(stamp, 'w').write(h)
    return out


def libs_of(driver):
    """// LIBS: dirs  (subdirectories of src whose .cpp files are linked)"""
    for l in open(driver):
        if l.startswith('// LIBS:'):
            return l.split(':', 1)[1].split()
    return []


def build(driver, work, extra=()):
    """returns path of the JSON facts of `driver` linked with its library sources"""
    dump = tool()
    inc = ['-I' + os.path.join(REPO, 'src/include'), '-I' + os.path.join(VERIF, 'drivers')]
    for l in open(driver):
        if l.startswith('// INC:'):
            inc += ['-I' + os.path.join(VERIF, 'drivers', d) for d in l.split(':', 1)[1].split()]
    jobs = [(driver, ['-std=c++14'])]
    for d in libs_of(driver):
        fs = sorted(glob.glob(os.path.join(REPO, 'src', d, '*.cpp')) if not d.endswith('.cpp') else [os.path.join(REPO, 'src', d)])
        if not fs:
            raise BuildError('no sources in src/' + d)
        jobs += [(f, ['-std=c++11']) for f in fs]

    def one(j):
        f, std = j
        out = os.path.join(work, hashlib.sha1(f.encode()).hexdigest()[:12] + '.bc')
        if not os.path.exists(out):
            run([LLVM + 'clang++'] + std + FLAGS + list(extra) + inc + ['-emit-llvm', '-c', f, '-o', out], 'compiling ' + f)
        return out
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, jobs))
    name = os.path.splitext(os.path.basename(driver))[0]
    all_ = os.path.join(work, name + '.all.bc')
    run([LLVM + 'llvm-link'] + bcs + ['-o', all_], 'linking')
    opt = os.path.join(work, name + '.opt.bc')
    run([LLVM + 'opt', '-passes=sroa', all_, '-o', opt], 'opt')
    js = os.path.join(work, name + '.json')
    with open(js, 'w') as f:
        p = subprocess.run([dump, opt], stdout=f, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError('irdump: ' + p.stderr.decode()[-2000:])
    return js


if __name__ == '__main__':
    print(tool())
