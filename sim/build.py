#!/usr/bin/env python3
"""Builds the simulator binary for a variant from /repo's current working tree.

Variants differ in the configuration constants (Config.h) and the NanoLog
flavour; the library sources themselves are always compiled unchanged, with
thread-sanitizer instrumentation whose callbacks are the simulator's."""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys

SIM = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
RT = os.path.join(REPO, 'runtime')
BUILD = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(SIM), 'build'))


def lib_sources():
    """the library is every .cc of runtime/ that is not a test or a program"""
    fs = []
    for f in sorted(os.listdir(RT)):
        if not f.endswith('.cc') or f.endswith('Test.cc') or f.startswith('Perf') or f in ('GeneratedCode.cc', 'LogDecompressor.cc'):
            continue
        if 'int main(' in open(os.path.join(RT, f), errors='replace').read():
            continue
        fs.append(f)
    return fs

VARIANTS = {
    # name: (flavour, staging, output, extra FILE_PARAMS)
    'small':   ('cpp17', 2048, 8192, None),
    'tiny':    ('cpp17', 1024, 4096, None),
    'mid':     ('cpp17', 16384, 131072, None),
    'default': ('cpp17', None, None, None),
    'odirect': ('cpp17', 2048, 8192, 'O_DIRECT'),
    'pre':     ('pre', 2048, 65536, None),
}


class BuildError(Exception):
    pass


class PreprocessorError(BuildError):
    pass


def config_header(staging, output, params, plain):
    if plain or staging is None and params is None:
        return '#include <fcntl.h>\n#include "Config.h"\n'
    h = '#include <fcntl.h>\n#include "Config.h"\nnamespace NanoLogConfig {\n'
    d = ''
    if staging:
        h += f'static const uint32_t SIM_STAGING = {staging};\nstatic const uint32_t SIM_OUTPUT = {output};\n'
        h += 'static const uint32_t SIM_RELEASE = static_cast<uint32_t>(static_cast<uint64_t>(RELEASE_THRESHOLD) * SIM_STAGING / STAGING_BUFFER_SIZE);\n'
        d += '#define STAGING_BUFFER_SIZE SIM_STAGING\n#define OUTPUT_BUFFER_SIZE SIM_OUTPUT\n#define RELEASE_THRESHOLD SIM_RELEASE\n'
    if params:
        h += f'static const int SIM_FILE_PARAMS = FILE_PARAMS | {params};\n'
        d += '#define FILE_PARAMS SIM_FILE_PARAMS\n'
    return h + '}\n' + d


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    for base, dirs in ((REPO, ['runtime', 'preprocessor']), (os.path.dirname(SIM), ['sim'])):
        for d in dirs:
            for root, dn, fn in os.walk(os.path.join(base, d)):
                dn[:] = sorted(x for x in dn if x not in ('test_build', '__pycache__', 'regressionTests'))
                for f in sorted(fn):
                    if f.endswith(('.cc', '.h', '.py')) and f != 'GeneratedCode.cc':
                        p = os.path.join(root, f)
                        h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()[:16]


def build(variant, jobs=8, pool=None):
    flavour, staging, output, params = VARIANTS[variant]
    key = tree_hash()
    out = os.path.join(BUILD, f'{variant}-{key}')
    exe = os.path.join(out, 'sim')
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith(variant + '-'):
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    tmp = out + f'.tmp{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        try:
            build_in(tmp, flavour, staging, output, params, False, jobs)
        except BuildError:
            if staging is None:
                raise
            build_in(tmp, flavour, staging, output, params, True, jobs)
        os.rename(tmp, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_in(d, flavour, staging, output, params, plain, jobs):
    pre = flavour == 'pre'
    open(os.path.join(d, 'simconfig.h'), 'w').write(config_header(staging, output, params, plain))
    std = '-std=c++11' if pre else '-std=c++17'
    inc = ['-I', RT, '-I', SIM, '-I', d]
    warn = ['-w']
    sut = ['g++', std, '-O2', '-g1', '-fsanitize=thread', '-DTESTING=1', '-include', 'array', '-include', 'simconfig.h'] + warn + inc
    if pre:
        sut += ['-DPREPROCESSOR_NANOLOG']
    own = ['g++', '-std=c++17', '-O2', '-g1'] + warn + inc
    tasks = []          # (command, cwd)
    objs = []

    def cc(cmd, src, name):
        o = name + '.o'
        objs.append(o)
        tasks.append(cmd + ['-c', src, '-o', o])

    run([sys.executable, os.path.join(SIM, 'gen_sites.py'), 'sites.cc', flavour], d)
    parser = os.path.join(REPO, 'preprocessor', 'parser.py')
    if pre:
        # the preprocessor's documented pipeline (NanoLogMakeFrag), on our sites
        env = ['g++', '-E', '-I', RT, '-I', SIM, 'sites.cc', '-o', 'sites.cc.i', '-std=c++11', '-DPREPROCESSOR_NANOLOG', '-include', 'array', '-w']
        run(env, d)
        try:
            run([sys.executable, parser, '--mapOutput=sites.map', 'sites.cc.i'], d)
            run([sys.executable, parser, '--combinedOutput=GeneratedCode.cc', 'sites.map'], d)
        except BuildError as e:
            raise PreprocessorError(str(e))
        if not os.path.exists(os.path.join(d, 'sites.cc.ii')):
            raise PreprocessorError('preprocessor produced no sites.cc.ii')
        cc(['g++', '-std=c++11', '-O1', '-ftree-loop-distribute-patterns', '-g1', '-fsanitize=thread', '-DTESTING=1', '-w', '-x', 'c++-cpp-output'], 'sites.cc.ii', 'sites')
        cc(sut, 'GeneratedCode.cc', 'GeneratedCode')
    else:
        run(['g++', '-E', '-I', RT, os.path.join(RT, 'testHelper', 'client.cc'), '-o', 'client.cc.i', '-std=c++17', '-include', 'array', '-w'], d)
        run([sys.executable, parser, '--mapOutput=client.map', 'client.cc.i'], d)
        run([sys.executable, parser, '--combinedOutput=GeneratedCode.cc', 'client.map'], d)
        cc([x if x != '-O2' else '-O1' for x in sut] + ['-ftree-loop-distribute-patterns'], 'sites.cc', 'sites')
        cc(sut, 'GeneratedCode.cc', 'GeneratedCode')
    for f in lib_sources():
        cc(sut, os.path.join(RT, f), 'lib_' + f[:-3])
    cc(sut + ['-Dmain=decompressor_main'], os.path.join(RT, 'LogDecompressor.cc'), 'lib_LogDecompressor')
    cc(sut, os.path.join(SIM, 'api.cc'), 'api')
    cc(sut, os.path.join(SIM, 'decapi.cc'), 'decapi')
    for f in ('engine', 'driver', 'plan', 'workload', 'oracle', 'rx'):
        cc((own if f != 'rx' else [std if x == '-std=c++17' else x for x in own]), os.path.join(SIM, f + '.cc'), f)
    # longest first
    with cf.ThreadPoolExecutor(jobs) as ex:
        for t, r in [(t, ex.submit(run, t, d)) for t in tasks]:
            try:
                r.result()
            except BuildError as e:
                if pre and ('GeneratedCode.cc' in t or 'sites.cc.ii' in t):
                    raise PreprocessorError(str(e))
                raise
    lib = [o for o in objs if o.startswith('lib_')]
    rest = [o for o in objs if not o.startswith('lib_')]
    first = ('rx.o', 'engine.o', 'driver.o')
    order = [o for o in first if o in rest] + lib + [o for o in rest if o not in first]
    run(['g++', '-o', 'sim'] + order + ['-rdynamic', '-pthread', '-ldl', '-Wl,--wrap=malloc,--wrap=memcpy,--wrap=memmove,--wrap=memset'], d)


if __name__ == '__main__':
    vs = sys.argv[1:] or list(VARIANTS)
    with cf.ThreadPoolExecutor(len(vs)) as ex:
        for v, f in [(v, ex.submit(build, v, 8)) for v in vs]:
            print(v, f.result())
