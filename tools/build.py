#!/usr/bin/env python3
"""Builds the simulator: /repo's sources instrumented (compiler's -fsanitize=thread callbacks, own
runtime), the runtime and the drivers, into /verif/build. Incremental through ninja."""
import os, re, subprocess, sys, fcntl

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))


def meson_sources(text, marker):
    """the source files listed after `marker` up to the closing parenthesis"""
    i = text.index(marker)
    j = text.index('files(', i) + 6
    k = text.index(')', j)
    return re.findall(r"'([^']+\.(?:cpp|c))'", text[j:k])


def main(targets=()):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    meson = open(os.path.join(REPO, 'meson.build')).read()
    core = [s for s in meson_sources(meson, "library('libvapoursynth'") if 'vsresize' not in s]
    filt = meson_sources(meson, 'filters_sources = ')
    pipe = meson_sources(meson, "executable('vspipe'")
    rel = open(os.path.join(REPO, 'VAPOURSYNTH_VERSION')).read().split()[2].split('-')[0]

    warn = '-w'
    common = ('-std=c++20 -fno-char8_t -O1 -g1 -fPIC -fno-math-errno -fno-strict-aliasing '
              f'-DVS_CURRENT_RELEASE={rel} -DVS_GRAPH_API -DVS_USE_LATEST_API -DVSSCRIPT_USE_LATEST_API '
              f'-DVS_TARGET_OS_LINUX -DHAVE_SCHED_GETAFFINITY -DVERIF_SIM -I{REPO}/include {warn}')
    inst = common + ' -fsanitize=thread -fvisibility=hidden -mllvm -tsan-instrument-func-entry-exit=0'
    drv = '-std=c++20 -O2 -g1 -fPIC -Wall -Wno-unused-function -Wno-deprecated-enum-enum-conversion -fno-builtin-malloc -I$root/sim -I$repo/include -I$repo/src/core -DVS_GRAPH_API -DVS_USE_LATEST_API -DVSSCRIPT_USE_LATEST_API -DVS_TARGET_OS_LINUX'
    out = [f'root = {ROOT}', f'repo = {REPO}', f'inst = {inst}', f'drv = {drv}',
           'rule ci\n  command = clang++ $inst $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CI $in',
           'rule cd\n  command = clang++ $drv $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CD $in',
           'rule cy\n  command = /opt/vp/venv/bin/cython -3 --cplus --fast-fail $in -o $out -M\n  depfile = $out.dep\n  description = CY $in',
           'rule so\n  command = clang++ -shared -Wl,-Bsymbolic -Wl,-z,now -o $out $in $libs\n  description = SO $out',
           'rule exe\n  command = clang++ -rdynamic -o $out $in $libs -Wl,-rpath,\\$$ORIGIN\n  description = EXE $out']

    def comp(rule, srcs, prefix, extra='', base=None):
        objs = []
        for s in srcs:
            path = s if s.startswith(('/', 'pyext/')) else os.path.join(base or REPO, s)
            o = f'obj/{prefix}/' + re.sub(r'[^A-Za-z0-9_]', '_', s) + '.o'
            out.append(f'build {o}: {rule} {path}\n  extra = {extra}')
            objs.append(o)
        return objs

    # the processor specific choice of plugins lives in vscore.cpp; its inputs are simulated
    x86 = [s for s in core if s.endswith('/vscore.cpp')]
    co = comp('ci', [s for s in core if s not in x86], 'core', '-DVS_CORE_EXPORTS') + comp('ci', x86, 'core', '-DVS_CORE_EXPORTS -DVS_TARGET_CPU_X86') + comp('ci', [ROOT + '/sim/stubs/resize_stub.cpp'], 'core')
    out.append('build libvapoursynth.so: so ' + ' '.join(co) + '\n  libs = -lpthread -ldl ' + ' '.join('-Wl,--wrap=' + f for f in ('fopen', 'dlopen', 'dlsym', 'dlclose', 'dlerror', 'doGetX86ABILevel', 'getCPUFeatures')))
    fo = comp('ci', filt, 'filters', '-DVS_CORE_EXPORTS')
    out.append('build libvapoursynthfilters.so: so ' + ' '.join(fo) + '\n  libs = -lpthread -ldl')
    po = comp('ci', pipe, 'pipe', '-Dmain=vspipe_main -fvisibility=default')
    wrap = ' '.join('-Wl,--wrap=' + f for f in ('fopen', 'fopen64', 'fwrite', 'fprintf', 'vfprintf', 'printf', 'fputs', 'fputc', 'putc', 'putchar', 'puts', 'fflush', 'fclose', 'sigaction'))
    out.append('build libvspipesim.so: so ' + ' '.join(po) + f'\n  libs = -lpthread -ldl {wrap}')
    rt = comp('cd', ['sim/rt.cpp'], 'drv', '', ROOT)
    drivers = sorted(f for f in os.listdir(os.path.join(ROOT, 'sim')) if f.endswith('.cpp') and f != 'rt.cpp')
    dr = comp('cd', ['sim/' + f for f in drivers], 'drv', '', ROOT)
    out.append('build vssim: exe ' + ' '.join(rt + dr) + ' | libvapoursynth.so libvapoursynthfilters.so libvspipesim.so\n  libs = -L. -Wl,--no-as-needed -l:libvapoursynth.so -l:libvspipesim.so -lpthread -ldl')
    # the Python module: compiled with the same instrumentation, hosted by an embedded interpreter
    pyx = REPO + '/src/cython/vapoursynth.pyx'
    out.append(f'build pyext/vapoursynth.pyx.cpp: cy {pyx}')
    pyinc = '-I/usr/include/python3.12 -I/usr/include/x86_64-linux-gnu/python3.12'
    po = comp('ci', ['pyext/vapoursynth.pyx.cpp', 'src/common/wave.cpp'], 'pyext', f'-I{REPO} {pyinc} -DPy_LIMITED_API=0x030c0000 -fvisibility-inlines-hidden')
    out.append('build pyext/vapoursynth.abi3.so: so ' + ' '.join(po) + ' | libvapoursynth.so\n  libs = -L. -l:libvapoursynth.so -lpthread -Wl,-rpath,\\$$ORIGIN/..')
    so = comp('ci', ['src/vsscript/vsscript.cpp'], 'vsscript', f'-I{REPO}/src {pyinc} -fvisibility-inlines-hidden')
    out.append('build libvsscriptsim.so: so ' + ' '.join(so) + '\n  libs = -lpthread -ldl -Wl,--wrap=system')
    pd = comp('cd', ['sim/py/' + f for f in sorted(os.listdir(os.path.join(ROOT, 'sim/py'))) if f.endswith('.cpp')], 'pydrv', f'{pyinc} -DSIM_ROOT=\\"{ROOT}\\" -DSIM_REPO=\\"{REPO}\\" -DSIM_BUILD=\\"{BUILD}\\"', ROOT)
    out.append('build pysim: exe ' + ' '.join(rt + pd + [o for o in dr if o.endswith('sim_main_cpp.o')]) + ' | libvapoursynth.so libvapoursynthfilters.so libvsscriptsim.so pyext/vapoursynth.abi3.so\n  libs = -L. -Wl,--no-as-needed -l:libvapoursynth.so -l:libvsscriptsim.so -lpython3.12 -lpthread -ldl')
    out.append(f'rule shim\n  command = gcc -O1 -Wall -shared -fPIC -o $out $in -ldl\nbuild fsshim.so: shim {ROOT}/sim/fs/shim.c')
    out.append('default vssim libvapoursynthfilters.so')
    text = '\n'.join(out) + '\n'
    nf = os.path.join(BUILD, 'build.ninja')
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, 'w').write(text)
    r = subprocess.run(['ninja', '-C', BUILD] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
