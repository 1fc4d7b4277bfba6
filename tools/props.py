"""Per property: how check.py runs it and what its evidence and MANIFEST.json say."""
TECHNIQUE = 'deterministic simulation with fault injection: seeded search over schedules, workloads and faults'
NOTE = ('Sampled, not exhaustive: seeded schedules of the real engine under a simulator that owns threads, locks, clock, heap and memory limits, checked against executable models; '
        'every violation is replayed twice in fresh processes before it is reported. Assumes sequential consistency (weak memory only through the happens-before race detector).')
PROPS = {p: {} for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P18', 'P19')}
PY_REAL = ['src/cython/vapoursynth.pyx compiled as shipped (limited API) and instrumented, on the instrumented libvapoursynth', 'the CPython interpreter with its own GIL, queue and future implementation']
PY_STUB = ['threads, mutexes, condition variables, clock, heap: simulator', 'zimg resizer plugin: stub', 'sources and taps of the graph, user functions: generated workload with executable models']
PROPS['P17'] = {'exe': 'pysim', 'real': PY_REAL, 'stub': PY_STUB,
                'assumptions': ['CPython 3.12 with the GIL; preemption inside the interpreter happens where it allocates, locks or waits']}
PROPS['P21'] = PROPS['P17']
PROPS['P24'] = PROPS['P17']
PROPS['P23'] = {'exe': 'pysim', 'real': ['src/vsscript/vsscript.cpp'] + PY_REAL,
                'stub': ['threads, mutexes, condition variables, clock, heap: simulator', 'zimg resizer plugin: stub', 'configuration file by which VSScript finds the Python library: written by the check', 'applications, scripts and their source filters: generated workload with an executable model'],
                'assumptions': PROPS['P17']['assumptions'] + ['an application keeps to the documented rules: it frees nodes before the script, and calls nothing but the error and free functions after a failed evaluation']}
FS_REAL = ['src/py/_utils.py and src/py/_shell.py on the real CPython interpreter and standard library, in real processes on a real scratch file system']
FS_STUB = ['order and outcome of every file operation, locks, kills, clocks, sleeps, random numbers and process ids: simulator (preloaded shim)', 'what survives a power failure: model (metadata in order, file data in order from the last sync on, possibly torn)',
           'compiled extension module and the search for the Python library: stand-ins']
FS_ASSUME = ['a power failure keeps metadata operations in order and file data up to the last completed fsync of the file', 'file operations are sampled, not enumerated', 'Linux code paths only: registry and Windows branches are not run']
for p in ('P20', 'P22'):
    PROPS[p] = {'exe': 'fsshim.so', 'python': True, 'real': FS_REAL, 'stub': FS_STUB, 'assumptions': FS_ASSUME,
                'note': 'Sampled, not exhaustive: seeded schedules, crashes, power failures and failing or short file operations around the real commands; every violation is replayed twice in fresh processes before it is reported. '
                        'Power failures follow an ordered-metadata journalling model.'}
NOT_APPLICABLE = {
    'N01': 'pure function of the input: no schedule, clock, fault or interleaving is involved, so simulation would only be input generation in disguise',
    'N02': 'pure function of expression and pixels: nothing for a scheduler or fault injector to decide',
    'N03': 'pure function of the signature string and the argument map: nothing for a scheduler or fault injector to decide',
}
