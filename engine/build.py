"""Builds bitcode and native replay programs from /repo's working tree."""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
RT = os.path.join(VERIF, 'engine', 'rt')
INC = os.path.join(VERIF, 'engine', 'include')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class BuildError(Exception):
    pass


def includes(tmp):
    return ['-I' + tmp, '-I' + INC, '-I' + os.path.join(INC, 'marc'),
            '-I' + RT, '-I' + os.path.join(REPO, 'lib'),
            '-I' + os.path.join(REPO, 'lib', 'marc'),
            '-I' + os.path.join(REPO, 'src'), '-I' + REPO,
            '-I' + os.path.join(REPO, 'opt/fmt-8.0.1/include')]


COMMON = ['-std=c++17', '-O0', '-g', '-DHAVE_CONFIG_H', '-DVP_HARNESS_BUILD',
          '-ffp-contract=off', '-w']
BC = ['-gline-tables-only', '-Xclang', '-disable-O0-optnone',
      '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS=0',
      '-U_GLIBCXX_ASSERTIONS', '-fno-discard-value-names',
      '-fno-threadsafe-statics', '-emit-llvm', '-c']
SAN = ['-fsanitize=address,undefined,float-cast-overflow',
       '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function',
       '-D_GLIBCXX_ASSERTIONS']


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def lib_sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, 'lib/marc/*.cpp'))
                  if not f.endswith('_t.cpp'))


class Builder:
    """one harness file -> module.bc, replay program"""

    def __init__(self, harness, src=(), gen_parser=False, defs=(),
                 jobs=8, tmp=None, native_extra=(), lib=True, native_src=None,
                 native_libs=()):
        self.harness = os.path.join(VERIF, 'harness', harness)
        self.src = list(src)
        self.native_src = native_src
        self.gen_parser = gen_parser
        self.defs = ['-D' + d for d in defs]
        self.jobs = jobs
        self.tmp = tmp or tempfile.mkdtemp(prefix='vp.')
        self.lib = lib
        self.native_libs = list(native_libs)
        self.pool = cf.ThreadPoolExecutor(jobs)

    def cleanup(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def prepare(self):
        if self.gen_parser:
            run(['bison', '-d', '-o', os.path.join(self.tmp, 'parse.cc'),
                 os.path.join(REPO, 'src/parse.yy')], cwd=self.tmp)

    def sources(self):
        s = list(lib_sources()) if self.lib else []
        for f in self.src:
            s.append(os.path.join(self.tmp, f[4:]) if f.startswith('gen:')
                     else os.path.join(REPO, 'src', f))
        return s

    def _compile_bc(self, f, k):
        out = os.path.join(self.tmp, 'm%d.bc' % k)
        run([CXX] + COMMON + BC + self.defs + includes(self.tmp) +
            [f, '-o', out])
        return out

    def _compile_native(self, f, k):
        out = os.path.join(self.tmp, 'n%d.o' % k)
        run([CXX] + COMMON + SAN + ['-DVP_NATIVE', '-c'] + self.defs +
            includes(self.tmp) + [f, '-o', out])
        return out

    def bitcode(self):
        files = [self.harness, os.path.join(RT, 'rt.cpp')] + self.sources()
        outs = list(self.pool.map(lambda a: self._compile_bc(*a),
                                  [(f, k) for k, f in enumerate(files)]))
        linked = os.path.join(self.tmp, 'all.bc')
        run(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link',
             '-o', linked] + outs[1:] + ['--override=' + outs[0]])
        final = os.path.join(self.tmp, 'final.bc')
        run(['opt-18' if shutil.which('opt-18') else 'opt',
             '-passes=function(sroa,early-cse,simplifycfg)', linked, '-o',
             final])
        return final

    def native(self):
        files = [self.harness, os.path.join(RT, 'vp_native.cpp')] + \
            self.sources()
        outs = list(self.pool.map(lambda a: self._compile_native(*a),
                                  [(f, k) for k, f in enumerate(files)]))
        exe = os.path.join(self.tmp, 'replay')
        run([CXX] + SAN + ['-rdynamic', '-Wl,-z,muldefs', '-o', exe] + outs +
            self.native_libs + ['-ldl', '-lm'])
        return exe
