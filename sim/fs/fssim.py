"""Deterministic simulation of the installation commands (src/py/_utils.py, src/py/_shell.py): each simulated
client is a forked process running the real code on the real interpreter inside a scratch directory; every file
operation it makes is announced by the preloaded shim (shim.c) and scheduled, failed, cut short or made the last
one by this seeded scheduler, which also keeps a model of what a power failure would leave on disk."""
import ctypes, errno, hashlib, json, os, random, re, shutil, signal, socket, struct, sys, time, tomllib, types

GO, FAIL, SHORT, CRASH, CRASH_SHORT = range(5)
NAMES = {GO: 'go', FAIL: 'fail', SHORT: 'short', CRASH: 'kill-before', CRASH_SHORT: 'kill-after', 6: 'power-loss'}
POWER = 6
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = 1700000000 * 10**9


def load_module():
    """the package's Python files from the working tree, with a stand-in for the compiled extension"""
    sys.dont_write_bytecode = True
    pkg = types.ModuleType('vsut')
    pkg.__path__ = [REPO + '/src/py']
    sys.modules['vsut'] = pkg
    ext = types.ModuleType('vsut.vapoursynth')

    class Error(Exception):
        pass
    ext.Error, ext.__version__ = Error, 'R0'
    ext.__getattr__ = lambda n: Error
    sys.modules['vsut.vapoursynth'] = ext
    import ctypes.util
    real, memo = ctypes.util.find_library, {}
    ctypes.util.find_library = lambda n: memo[n] if n in memo else memo.setdefault(n, real(n))
    import importlib
    m = importlib.import_module('vsut._utils')
    for mod in ('tempfile', 'shutil', 'fcntl', 'contextlib', 'random', 'stat'):
        importlib.import_module(mod)
    return m


class Out:
    """stdout and stderr of a client: sent to the scheduler at once"""
    def __init__(self, send):
        self.s, self.encoding = send, 'utf-8'

    def write(self, t):
        b = t.encode('utf-8', 'backslashreplace')[:60000]
        self.s(b'O' + b, len(b) + 1)
        return len(t)

    def flush(self):
        pass


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class Inode:
    def __init__(self, base=b'', ops=()):
        self.base, self.ops = base, list(ops)

    def image(self, k, torn=None):
        d = bytearray(self.base)
        for i, op in enumerate(self.ops[:k + (torn is not None)]):
            if op[0] == 't':
                n = op[1]
                del d[n:]
                d.extend(b'\0' * (n - len(d)))
            else:
                off, data = op[1], op[2]
                if i == k:
                    data = data[:torn]
                if off > len(d):
                    d.extend(b'\0' * (off - len(d)))
                d[off:off + len(data)] = data
        return bytes(d)


# ---------------------------------------------------------------- scenarios
KEYCHARS = ['a', 'b', 'Z', '0', ' ', '.', '-', '_', 'é', '漢', '#', '=', '[', "'", '\\', '"', '\t', '\n', '\x7f', ',', '&']


def gen_name(r, hard):
    return ''.join(r.choice(KEYCHARS if hard else KEYCHARS[:8]) for _ in range(r.randint(1, 8))).strip('. \n\t') or 'x'


def gen_dir(r):
    return ''.join(r.choice(['a', 'b', ' ', '.', 'é', "'", '"', '$', '$HOME', '`', '\\', '!', '#', '*', '(', '&', ';', '~', '%']) for _ in range(r.randint(1, 6))).strip('. ') or 'x'


def toml_str(s):
    return '"' + ''.join('\\\\' if c == '\\' else '\\"' if c == '"' else c if ' ' <= c != '\x7f' else '\\u%04X' % ord(c) for c in s) + '"'


def gen_config(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 6])
    if n == 0 and r.random() < 0.6:
        return None
    lines, keys = [], set()
    for _ in range(n):
        k = '/opt/' + gen_name(r, r.random() < 0.3) + '/lib/python3/site-packages/vapoursynth/libvsscript.so'
        if k in keys:
            continue
        keys.add(k)
        v = ['/usr/bin/' + gen_name(r, r.random() < 0.3), '/usr/lib/' + gen_name(r, r.random() < 0.3) + '.so', str(r.randint(10**9, 2 * 10**9))]
        form = r.random()
        if form < 0.75:
            lines.append(f'{toml_str(k)} = [{toml_str(v[0])},{toml_str(v[1])},{toml_str(v[2])}]')
        elif form < 0.85:
            lines.append(f'{toml_str(k)} = [\n  {toml_str(v[0])},\n  {toml_str(v[1])}, # library\n  {toml_str(v[2])},\n]')
        elif form < 0.95:
            lines.append(f'{toml_str(k)} = [ {toml_str(v[0])}, {toml_str(v[1])}, {v[2]} ]')
        else:
            lines.append(f'# a comment\n\n{toml_str(k)}=[{toml_str(v[0])},{toml_str(v[1])},{toml_str(v[2])}]')
    if r.random() < 0.1:
        lines.insert(r.randint(0, len(lines)), r.choice(['other = 1', 'flag = true', 'short = ["x"]', 'text = "value"', 'empty = []']))
    text = '\n'.join(lines) + ('\n' if lines and r.random() < 0.9 else '')
    if lines and r.random() < 0.12:
        # damaged by something else: a torn line
        cut = r.randint(0, len(lines) - 1)
        if '\n' not in lines[cut]:
            lines[cut] = lines[cut][:r.randint(1, max(1, len(lines[cut]) - 1))]
            text = '\n'.join(lines) + '\n'
    elif lines and r.random() < 0.03:
        text = text + '\x00\x01 = garbage\n'
    if r.random() < 0.05:
        text = text * 1 + '# ' + 'x' * r.choice([4000, 8190, 20000]) + '\n'
    return text


SHELLS = ['bash', 'zsh', 'fish', 'csh', 'ksh']
SHFILES = {'bash': ['.bash_profile', '.bash_login', '.profile', '.bashrc'], 'zsh': ['.zshenv', 'zd/.zshenv'], 'fish': ['.config/fish/config.fish', 'xdg/fish/config.fish'],
           'csh': ['.cshrc', '.login'], 'ksh': ['.profile', '.kshrc']}
SETLINE = {'bash': 'export VSSCRIPT_PATH="%s"', 'ksh': 'export VSSCRIPT_PATH="%s"', 'zsh': 'export VSSCRIPT_PATH="%s"', 'fish': 'set -gx VSSCRIPT_PATH "%s"', 'csh': 'setenv VSSCRIPT_PATH "%s"'}


def gen_rc(r, shell):
    x = r.random()
    if x < 0.1:
        return ''
    lines = []
    for _ in range(r.choice([1, 3, 10, 60, 400])):
        lines.append(r.choice(['alias ll="ls -l"', 'PATH=$PATH:/opt/bin', '', '  if [ -f ~/x ]; then', 'fi', '# VapourSynth', '# export VSSCRIPT_PATH="/commented"', 'export EDITOR=vi', 'echo "é漢"', 'echo "caf\udce9"', 'x=\udcff\udc80',
                               'export OTHER_VSSCRIPT_PATH=x', 'export VSSCRIPT_PATH_OLD=/y', 'set -gx VSSCRIPT_PATHS /z', 'setenv VSSCRIPT_PATH2 /w', 'echo VSSCRIPT_PATH=1', '\tx=1', 'trailing   ', 'form\x0cfeed', 'cr line\r']))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        lines.insert(r.randint(0, len(lines)), SETLINE[shell] % ('/old/' + gen_name(r, False)))
    return '\n'.join(lines) + ('\n' if r.random() < 0.8 else '')


def gen(prop, seed):
    r = random.Random(seed)
    sc = {'prop': prop, 'seed': seed, 'files': {}, 'links': {}, 'rounds': [], 'faults': {}}
    nrounds = r.choice([1, 1, 2, 3])
    if prop == 'P20':
        sc['xdg'] = r.random() < 0.6
        d = ('xdg' if sc['xdg'] else 'home/.config') + '/vapoursynth'
        c = gen_config(r)
        if c is not None:
            if r.random() < 0.15:
                sc['files']['home/dotfiles/vs.toml'] = c
                sc['links'][d + '/vapoursynth.toml'] = '$ROOT/home/dotfiles/vs.toml' if r.random() < 0.5 else '../' * d.count('/') + '../home/dotfiles/vs.toml'
            else:
                sc['files'][d + '/vapoursynth.toml'] = c
        elif r.random() < 0.5:
            sc['dirs'] = [d]
        insts = [{'dir': '/srv/' + gen_name(r, r.random() < 0.25) + r.choice(['/lib', '/lib64', '/lib']) + '/python3.12/site-packages/vapoursynth', 'exe': 'inst/' + gen_name(r, False).replace('/', '_') + str(i),
                  'symbol': '/usr/lib/' + gen_name(r, r.random() < 0.2) + '.so' if r.random() < 0.93 else None} for i in range(3)]
        for i in insts:
            sc['files'][i['exe']] = 'x'
        for _ in range(nrounds):
            k = r.choice([1, 1, 1, 2, 2, 3])
            sc['rounds'].append([dict(kind='config', **r.choice(insts)) for _ in range(k)])
        sc['rounds'].append([dict(kind='config', **dict(r.choice(insts), symbol='/usr/lib/libpython3.so'))])
    else:
        sh = r.choice(SHELLS)
        sc['xdg'] = r.random() < 0.4
        sc['zdotdir'] = r.random() < 0.4
        for f in SHFILES[sh]:
            if r.random() < 0.65:
                p = 'home/' + f if not f.startswith('xdg') else f
                if r.random() < 0.2:
                    sc['files']['home/dotfiles/' + os.path.basename(f)] = gen_rc(r, sh)
                    sc['links'][p] = '$ROOT/home/dotfiles/' + os.path.basename(f)
                else:
                    sc['files'][p] = gen_rc(r, sh)
        for _ in range(nrounds + 1):
            sc['rounds'].append([{'kind': 'shell', 'shell': sh, 'dir': '/srv/' + (gen_dir(r) if r.random() < 0.25 else gen_name(r, False)) + '/vapoursynth'} for _ in range(r.choice([1, 1, 1, 1, 2]))])
        sc['rounds'][-1] = sc['rounds'][-1][:1]
        if r.random() < 0.25:  # what will be set is already there, but commented out
            for f in sc['files']:
                if r.random() < 0.5:
                    sc['files'][f] = r.choice(['# ', '#', ' # ']) + SETLINE[sh] % (r.choice(sc['rounds'])[0]['dir'] + '/libvsscript.so') + '\n' + sc['files'][f]
    # how faults strike
    m = r.random()
    sc['faults'] = {'ops': r.choice([0.0, 0.0, 0.02, 0.05, 0.15]), 'kill': r.choice([0.0, 0.01, 0.03, 0.08]), 'power': r.choice([0.0, 0.0, 0.01, 0.04]), 'full': r.random() < 0.15, 'short': r.choice([0.0, 0.0, 0.2])}
    if m < 0.1:
        sc['faults'] = {'ops': 0.0, 'kill': 0.0, 'power': 0.0, 'full': False, 'short': 0.0}
    sc['stick'] = r.choice([0.0, 0.5, 0.9])
    return sc


ERR = {'open': ['EACCES', 'EIO', 'EMFILE', 'ENOSPC', 'EROFS', 'EINTR'], 'write': ['EIO', 'ENOSPC', 'EDQUOT', 'EINTR'], 'close': ['EIO', 'EDQUOT', 'ENOSPC'], 'fsync': ['EIO', 'ENOSPC'], 'rename': ['EIO', 'EACCES', 'ENOSPC', 'EROFS'],
       'read': ['EIO', 'EINTR'], 'stat': ['EACCES', 'EIO'], 'flock': ['ENOLCK', 'EINTR', 'EIO'], 'lockf': ['ENOLCK', 'EINTR'], 'mkdir': ['EACCES', 'ENOSPC', 'EROFS'], 'unlink': ['EACCES', 'EIO', 'EROFS'], 'chmod': ['EPERM', 'EIO'],
       'chown': ['EPERM'], 'ftruncate': ['EIO', 'ENOSPC', 'EINTR'], 'truncate': ['EIO'], 'link': ['EPERM', 'EIO'], 'symlink': ['EPERM']}
MUT = {'write', 'ftruncate', 'truncate', 'rename', 'link', 'symlink', 'unlink', 'mkdir', 'chmod', 'chown'}


# ---------------------------------------------------------------- one simulated execution
class Run:
    def __init__(self, sc, base, module, shim, decisions=None, verbose=False):
        self.sc, self.base, self.m, self.shim, self.dec, self.verbose = sc, base, module, shim, decisions, verbose
        self.rng = random.Random(sc['seed'] ^ 0x5eed)
        self.taken, self.trace, self.h, self.ih = [], [], hashlib.blake2b(digest_size=8), hashlib.blake2b(digest_size=8)
        self.vtime, self.steps, self.clients = T0, 0, []
        self.stats = {'ops': 0, 'switches': 0, 'images': 0, 'faults': {}, 'rounds': 0, 'clients': 0, 'successes': 0, 'failures': 0}

    def note(self, s):
        s = s.replace(self.root, '$ROOT')
        self.h.update(s.encode('utf-8', 'surrogateescape') + b'\n')
        self.trace.append(s)
        if self.verbose:
            print(s.encode('utf-8', 'backslashreplace').decode())

    def fault(self, k):
        self.stats['faults'][k] = self.stats['faults'].get(k, 0) + 1

    # the scratch directory
    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)

    def tree(self):
        t = {}
        stack = [self.root]
        while stack:
            d = stack.pop()
            for e in os.scandir(d):
                rel = e.path[len(self.root) + 1:]
                if e.is_symlink():
                    t[rel] = ('l', os.readlink(e.path))
                elif e.is_dir(follow_symlinks=False):
                    t[rel] = ('d',)
                    stack.append(e.path)
                else:
                    t[rel] = ('f', e.stat(follow_symlinks=False).st_ino)
        return t

    def setup(self):
        self.root = os.path.join(self.base, 'r')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root + '/home')
        sc = self.sc
        for f, c in sc['files'].items():
            self.put(f, c.encode('utf-8', 'surrogateescape'))
        for l, t in sc['links'].items():
            p = os.path.join(self.root, l)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(t.replace('$ROOT', self.root), p)
        for d in sc.get('dirs', []):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for f in sc['files']:
            if f.startswith('inst/'):
                os.utime(os.path.join(self.root, f), (1.6e9 + len(f), 1.6e9 + len(f) * 7))
        self.reset_model()

    def reset_model(self):
        """everything that is there is durable"""
        self.inodes = {}
        t = self.tree()
        for rel, e in t.items():
            if e[0] == 'f':
                self.inodes[e[1]] = Inode(open(os.path.join(self.root, rel), 'rb').read())
        self.snaps = [t]
        self.durable = 0

    def resolve(self, t, rel, depth=0):
        e = t.get(rel)
        if e and e[0] == 'l' and depth < 8:
            tgt = e[1]
            p = os.path.normpath(tgt if tgt.startswith('/') else os.path.join(self.root, os.path.dirname(rel), tgt))
            return self.resolve(t, p[len(self.root) + 1:], depth + 1)
        return e

    def visible(self, rel):
        try:
            with open(os.path.join(self.root, rel), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def power_image(self, rng):
        """one state a power failure now could leave: metadata in order, data of a file from its last sync on in order, possibly torn"""
        j = rng.choice([self.durable, len(self.snaps) - 1, rng.randint(self.durable, len(self.snaps) - 1)])
        t = self.snaps[j]
        img = {}
        for rel, e in t.items():
            if e[0] == 'f':
                ino = self.inodes.get(e[1])
                if ino is None:
                    continue
                n = len(ino.ops)
                k = rng.choice([0, n, rng.randint(0, n)])
                torn = None
                if k < n and ino.ops[k][0] == 'w' and rng.random() < 0.5:
                    torn = rng.randint(0, len(ino.ops[k][2]))
                img[rel] = ino.image(k, torn)
        return t, img

    # clients
    def start(self, c, idx):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                self.child(c, idx, b.fileno())
            finally:
                os._exit(98)
        b.close()
        a.settimeout(30)
        return {'i': idx, 'c': c, 'pid': pid, 's': a, 'pend': None, 'blocked': False, 'out': '', 'end': None, 'faulted': False}

    def child(self, c, idx, fd):
        send = self.shim.fs_send
        m = self.m
        sys.stdout = sys.stderr = Out(send)
        os.chdir(self.root + '/home')
        env = {'HOME': self.root + '/home', 'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8'}
        if self.sc.get('xdg'):
            env['XDG_CONFIG_HOME'] = self.root + '/xdg'
        if self.sc.get('zdotdir'):
            env['ZDOTDIR'] = self.root + '/home/zd'
        if c['kind'] == 'shell':
            env['SHELL'] = '/bin/' + c['shell']
        os.environ.clear()
        os.environ.update(env)
        m.__file__ = c['dir'] + '/_utils.py'
        if c['kind'] == 'config':
            sys.executable = os.path.join(self.root, c['exe'])
            sym = c['symbol']
            m._find_python_symbol_path = lambda: sym and m.Path(sym)
        self.shim.fs_arm(fd, (self.root).encode(), 1000 + idx, (self.sc['seed'] * 31 + idx) & (2**64 - 1))
        try:
            if c['kind'] == 'config':
                m.vapoursynth_config()
            else:
                m.register_install()
            st = 'returned'
        except SystemExit as e:
            st = 'exit ' + str(e.code)
        except BaseException as e:
            st = f'raised {type(e).__name__}: {e}'
        self.shim.fs_disarm()
        b = b'X' + st.encode('utf-8', 'backslashreplace')[:4000]
        send(b, len(b))
        os._exit(0)

    def fetch(self, cl):
        """next announcement of a running client"""
        while True:
            try:
                b = cl['s'].recv(1 << 19)
            except ConnectionResetError:
                b = b''
            except TimeoutError:
                raise Violation('hang', 'the command runs without doing anything or coming to an end')
            if not b:
                os.waitpid(cl['pid'], 0)
                cl['end'] = cl['end'] or 'died'
                self.note(f'client {cl["i"]} died')
                return
            k = b[:1]
            if k == b'O':
                t = b[1:].decode('utf-8', 'surrogateescape')
                cl['out'] += t
                self.note(f'client {cl["i"]} prints {t!r}')
                if t.strip():
                    self.check('after output')
            elif k == b'A':
                op, a, x, n = b[1:].split(b'\0')
                cl['pend'] = (op.decode(), os.fsdecode(a), os.fsdecode(x), int(n))
                return
            elif k == b'X':
                cl['end'] = b[1:].decode('utf-8', 'surrogateescape')
                os.waitpid(cl['pid'], 0)
                self.note(f'client {cl["i"]} ends: {cl["end"]}')
                return
            else:
                raise RuntimeError(f'unexpected message {b[:50]}')

    def reply(self, cl, action, arg):
        self.vtime += 1_000_000
        cl['s'].send(struct.pack('<iiQ', action, arg, self.vtime))

    def choose(self, run):
        """which client, and what happens to its operation"""
        step = self.steps
        if self.dec is not None:
            i, action, arg = self.dec.get(step, (None, GO, 0))
            cl = next((c for c in run if c['i'] == i), None) or next((c for c in run if c is self.last), run[0])
            return cl, action, arg
        r, f = self.rng, self.sc['faults']
        cl = self.last if self.last in run and r.random() < self.sc['stick'] else r.choice(run)
        op, a, x, n = cl['pend']
        if self.final or op in ('sleep', 'escape'):
            return cl, GO, 0
        if r.random() < f['power'] * (1 if op in MUT or op in ('fsync', 'close') else 0.2):
            return cl, POWER, 0
        if r.random() < f['kill']:
            if op == 'write' and n > 0:
                return cl, CRASH_SHORT, r.randint(0, n)
            return cl, r.choice([CRASH, CRASH_SHORT]) if op in MUT or op == 'open' else CRASH, 0
        if self.full and (op in ('write', 'mkdir') or (op == 'open' and 'c' in x)) and r.random() < 0.9:
            return cl, FAIL, errno.ENOSPC
        if op in ('write', 'read') and n > 1 and r.random() < f['short']:
            return cl, SHORT, r.randint(1, n - 1)
        if r.random() < f['ops'] * (2 if op in MUT or op in ('fsync', 'close', 'open') else 1) and op in ERR:
            if op in ('flock', 'lockf') and (x == 'u' or len(self.clients) > 1):
                return cl, GO, 0
            if op == 'close' and x != 'w':
                return cl, GO, 0
            if op == 'write' and n > 1 and r.random() < 0.3:
                return cl, SHORT, r.randint(1, n - 1)
            e = getattr(errno, r.choice(ERR[op]))
            if e == errno.ENOSPC and f['full']:
                self.full = True
            return cl, FAIL, e
        return cl, GO, 0

    def do_round(self, clients):
        self.stats['rounds'] += 1
        self.clients = []
        self.begin_round(clients)
        self.reset_model()
        self.note(f'-- round {self.stats["rounds"]}: {len(clients)} clients')
        self.faults_in_round, self.full, self.last = 0, False, None
        try:
            for i, c in enumerate(clients):
                self.clients.append(self.start(c, i))
                self.stats['clients'] += 1
            for cl in self.clients:
                self.fetch(cl)
            ops = 0
            while True:
                live = [c for c in self.clients if c['end'] is None]
                if not live:
                    break
                run = [c for c in live if not c['blocked']]
                if not run:
                    raise Violation('deadlock', f'all {len(live)} running registrations wait for a lock for ever')
                ops += 1
                if ops > 4000:
                    raise Violation('no-progress', 'more than 4000 file operations without an end')
                cl, action, arg = self.choose(run)
                if self.last is not None and cl is not self.last:
                    self.stats['switches'] += 1
                default = next((c for c in run if c is self.last), run[0])
                if cl is not default or action != GO:
                    self.taken.append([self.steps, cl['i'], action, arg])
                self.last = cl
                self.steps += 1
                self.stats['ops'] += 1
                if self.step(cl, action, arg):
                    return  # power lost
                if cl['end'] is None and cl['pend'] is None:
                    self.fetch(cl)
                if cl['end'] is not None:
                    for c in self.clients:
                        c['blocked'] = False
            self.check('at the end of the round')
            self.end_round()
        finally:
            for cl in self.clients:
                if cl['end'] is None:
                    try:
                        os.kill(cl['pid'], signal.SIGKILL)
                        os.waitpid(cl['pid'], 0)
                    except (ProcessLookupError, ChildProcessError):
                        pass
                cl['s'].close()

    def step(self, cl, action, arg):
        op, a, x, n = cl['pend']
        rel = a[len(self.root) + 1:] if a.startswith(self.root + '/') else a
        desc = f'{self.steps} client {cl["i"]} {op} {rel} {x} {n if op in ("write", "read", "ftruncate", "sleep") else ""}'
        self.ih.update(f'{cl["i"]}{op}{action}'.encode())
        cl['pend'] = None
        if op == 'escape':
            self.reply(cl, GO, 0)
            cl['s'].recv(1 << 19)
            self.note(desc)
            raise Violation('escape', f'the registration tried to change {x} outside the user\'s files ({a})')
        if op == 'sleep':
            self.vtime += n
            cl['blocked'] = False
        if action == POWER:
            self.fault('power_loss')
            self.note(desc + ' -> POWER LOSS')
            for c in self.clients:
                if c['end'] is None:
                    os.kill(c['pid'], signal.SIGKILL)
                    os.waitpid(c['pid'], 0)
                    c['end'] = 'power lost'
            t, img = self.power_image(random.Random(self.sc['seed'] + self.steps))
            self.judge(lambda rel: self.from_image(t, img, rel), 'after a power failure', True)
            # the machine comes back with exactly that
            for e in os.scandir(self.root):
                shutil.rmtree(e.path) if e.is_dir(follow_symlinks=False) else os.unlink(e.path)
            for r2, e in sorted(t.items()):
                p = os.path.join(self.root, r2)
                if e[0] == 'd':
                    os.makedirs(p, exist_ok=True)
                elif e[0] == 'l':
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    os.symlink(e[1], p)
                else:
                    self.put(r2, img.get(r2, b''))
                    if r2.startswith('inst/'):
                        os.utime(p, (1.6e9 + len(r2), 1.6e9 + len(r2) * 7))
            self.reset_model()
            self.after_power()
            return True
        if action != GO:
            self.faults_in_round += action != SHORT
            cl['faulted'] = cl['faulted'] or action != SHORT
            self.fault(f'{NAMES[action]}_{op}' + (f'_{errno.errorcode.get(arg, arg)}' if action == FAIL else ''))
        # a failed close is reported after closing, so the shim carries it out
        self.reply(cl, action, arg)
        if action == CRASH:
            os.waitpid(cl['pid'], 0)
            cl['end'] = 'killed'
            self.note(desc + ' -> killed before')
            return False
        b = cl['s'].recv(1 << 19)
        if not b:
            os.waitpid(cl['pid'], 0)
            cl['end'] = 'died'
            return False
        ret, err, ino, off, data = b[1:].split(b'\0', 4)
        ret, err, ino, off = int(ret), int(err), int(ino), int(off)
        if ret == -2 and op in ('flock', 'lockf'):
            cl['blocked'] = True
            self.note(desc + ' -> waits')
            self.fetch(cl)
            return False
        self.note(desc + f' -> {ret} {errno.errorcode.get(err, "") if ret < 0 else ""} {"[" + NAMES[action] + "]" if action else ""}')
        ok = ret >= 0
        if ok and (op == 'close' or (op in ('flock', 'lockf') and x != 'w')):
            for c in self.clients:
                c['blocked'] = False
        changed = False
        if op == 'open' and ok and ('c' in x or 't' in x):
            t = self.tree()
            if t != self.snaps[-1]:
                known = {e[1] for e in self.snaps[-1].values() if e[0] == 'f'}
                if ino not in known:
                    self.inodes[ino] = Inode()
                self.snaps.append(t)
                changed = True
            if 't' in x and ino in self.inodes:
                self.inodes[ino].ops.append(('t', 0))
                changed = True
        elif op in ('write',) and ok:
            if ino in self.inodes:
                self.inodes[ino].ops.append(('w', off, data))
            changed = True
        elif op in ('ftruncate', 'truncate') and ok:
            if ino in self.inodes:
                self.inodes[ino].ops.append(('t', n))
            changed = True
        elif op == 'fsync' and ok:
            i = self.inodes.get(ino)
            if i:
                i.base, i.ops = i.image(len(i.ops)), []
            self.durable = len(self.snaps) - 1
        elif op in ('rename', 'link', 'symlink', 'unlink', 'mkdir') and ok:
            t = self.tree()
            for r2, e in t.items():
                if e[0] == 'f' and e[1] not in self.inodes:
                    self.inodes[e[1]] = Inode()
            self.snaps.append(t)
            changed = True
        if action == CRASH_SHORT:
            os.kill(cl['pid'], signal.SIGKILL)
            os.waitpid(cl['pid'], 0)
            cl['end'] = 'killed'
            self.note(f'client {cl["i"]} killed')
        if changed:
            self.check(f'after {op}')
            r = random.Random(self.sc['seed'] * 1000 + self.steps)
            for _ in range(3):
                self.stats['images'] += 1
                t, img = self.power_image(r)
                self.judge(lambda rel: self.from_image(t, img, rel), f'if the power fails after {op}', True)
        return False

    def from_image(self, t, img, rel):
        for _ in range(8):
            e = t.get(rel)
            if not e:
                return None
            if e[0] != 'l':
                return img.get(rel)
            tgt = e[1]
            rel = os.path.normpath(tgt if tgt.startswith('/') else os.path.join(self.root, os.path.dirname(rel), tgt))[len(self.root) + 1:]

    def check(self, when):
        # (a link that could not be examined is taken for a file, whose contents are right all the same)
        for l in [] if any('stat' in f for f in self.stats['faults']) else self.sc['links']:
            if not os.path.islink(os.path.join(self.root, l)):
                raise Violation('link-replaced', f'{when} {l} is no longer a symbolic link')
        self.judge(self.visible, when, False)

    # ---------------- oracles
    def paths(self):
        if self.sc['prop'] == 'P20':
            return [('xdg' if self.sc['xdg'] else 'home/.config') + '/vapoursynth/vapoursynth.toml']
        sh = self.sc['rounds'][0][0]['shell']
        return ['home/' + f if not f.startswith('xdg') else f for f in SHFILES[sh]]

    def begin_round(self, clients):
        self.old = {p: self.visible(p) for p in self.paths()}
        self.started = clients
        if self.sc['prop'] == 'P20':
            b = self.old[self.paths()[0]]
            self.bstrict, self.bview = view(b)
            self.want = []
            for c in clients:
                k = (c['dir'] + '/libvsscript.so').replace('/lib64/', '/lib/')
                p = os.path.join(self.root, c['exe'])
                self.want.append((k, (p, c['symbol'], str(int(os.stat(p).st_mtime)))))
        else:
            self.want = [c['dir'] + '/libvsscript.so' for c in clients]

    def after_power(self):
        pass

    def end_round(self):
        for cl in self.clients:
            succ = self.success(cl)
            self.stats['successes' if succ else 'failures'] += 1
            if self.faults_in_round == 0 and not succ and cl['c'].get('symbol', 1) is not None:
                raise Violation('fails-without-fault', f'nothing failed, but the registration did not succeed: {cl["end"]}, printed {cl["out"]!r}')
        if self.sc['prop'] == 'P22' and self.faults_in_round == 0 and len(self.clients) == 1:
            if not any(self.sets(self.visible(p) or b'', self.want[0]) for p in self.paths()):
                raise Violation('not-set', f'nothing failed, but no startup file sets the variable to the new path: {self.clients[0]["out"]!r}')

    def success(self, cl):
        if self.sc['prop'] == 'P20':
            return 'success' in cl['out'].lower()
        return cl['end'] == 'returned' and ('pdated' in cl['out'] or 'reated' in cl['out'] or 'up-to-date' in cl['out'])

    def judge(self, get, when, power):
        if self.sc['prop'] == 'P20':
            self.judge_config(get, when, power)
        else:
            self.judge_shell(get, when, power)

    def judge_config(self, get, when, power):
        p = self.paths()[0]
        b = get(p)
        strict, v = view(b)
        own = {}
        for k, val in self.want:
            own.setdefault(k, []).append(val)
        shown = lambda: 'missing' if b is None else repr(b[:300])
        for k, val in self.bview.items():
            have = v.get(k)
            if have == val or (k in own and have in own[k]):
                continue
            raise Violation('entry-lost' if have is None else 'entry-changed', f'{when} the entry of {k!r} is {"gone" if have is None else have} (was {val}); file: {shown()}')
        for k, val in v.items():
            if k not in self.bview and val not in own.get(k, []):
                raise Violation('wrong-entry', f'{when} the file has an entry nobody wrote: {k!r} = {val} (wanted {own}); file: {shown()}')
        if self.bstrict and not strict:
            raise Violation('torn', f'{when} the file cannot be parsed any more: {shown()}')
        if not power:
            for cl, (k, val) in zip(self.clients, self.want):
                if self.success(cl) and v.get(k) not in own[k]:
                    raise Violation('success-not-stored', f'{when}: registration {cl["i"]} reported success but the file has no entry for {k!r}: {shown()}')

    def judge_shell(self, get, when, power):
        for p in self.paths():
            old, b = self.old[p], get(p)
            if b == old:
                continue
            if b is None:
                raise Violation('file-lost', f'{when} {p} is gone')
            want = self.want
            ol, nl = user_lines(old or b''), user_lines(b)
            # the appended setting comes after a blank line and a comment
            while len(nl) > len(ol) and nl[-1] in (b'', b'# VapourSynth'):
                nl.pop()
            if ol != nl:
                d = next((i for i, (x, y) in enumerate(zip(ol, nl)) if x != y), min(len(ol), len(nl)))
                raise Violation('lines-lost', f'{when} {p} has lost or changed lines of the user: line {d} of {len(ol)} was {ol[d] if d < len(ol) else None!r}, now {nl[d] if d < len(nl) else None!r} of {len(nl)}')
            text = b.decode('utf-8', 'surrogateescape')
            if not any(self.sets(b, w) for w in want) and not (old is None and b == b''):
                raise Violation('half-written', f'{when} {p} has changed but does not set the variable to the new path: ...{text[-200:]!r}')
        if not power:
            for cl, w in zip(self.clients, self.want):
                for p in re.findall(r'(?:Updated|Created) configuration file: (.*)', cl['out']):
                    rel = p[len(self.root) + 1:]
                    b = get(rel) if rel in self.old else b''
                    if b is None or not any(self.sets(b, x, True) for x in self.want):
                        raise Violation('success-not-stored', f'{when}: {p} reported as updated but it does not set the variable')

    def sets(self, b, w, last=False):
        """does one of the settings (the last one, which counts) in a startup file set the variable to w?"""
        sh = self.sc['rounds'][0][0]['shell']
        x = [l.decode('utf-8', 'surrogateescape') for l in b.split(b'\n') if SETTING.match(l)]
        return any(shell_value(sh, l) == w for l in (x[-1:] if last else x))

    def run(self):
        self.setup()
        res = {'violation': None, 'msg': ''}
        try:
            for i, rd in enumerate(self.sc['rounds']):
                self.final = i == len(self.sc['rounds']) - 1
                self.do_round(rd)
        except Violation as e:
            res['violation'], res['msg'] = e.kind, e.msg.replace(self.root, '$ROOT')
            self.note(f'VIOLATION {e.kind}: {e.msg}')
        shutil.rmtree(self.root, ignore_errors=True)
        res.update(hash=self.h.hexdigest(), inter=self.ih.hexdigest(), decisions=self.taken, steps=self.steps, stats=self.stats, sim=(self.vtime - T0) / 1e9)
        return res


SETTING = re.compile(rb'\s*(export\s+VSSCRIPT_PATH\s*=|set\s+(-\S+\s+)*VSSCRIPT_PATH(\s|$)|setenv\s+VSSCRIPT_PATH(\s|$))')


def shell_value(shell, line):
    """what a shell sets the variable to when it reads the line, None if this is not the same everywhere"""
    m = SETTING.match(line.encode('utf-8', 'surrogateescape'))
    t = line[len(line.encode('utf-8', 'surrogateescape')[:m.end()].decode('utf-8', 'surrogateescape')):]
    if shell in ('fish', 'csh'):
        t = t.lstrip(' \t')
    special = {'bash': '$`', 'zsh': '$`', 'ksh': '$`', 'fish': '$', 'csh': '$`'}[shell]
    meta = {'fish': '()<>|&*?{};~', 'csh': '()<>|&*?{}[];~'}.get(shell, '()<>|&*?{}[];~')
    res, i, q = '', 0, None
    while i < len(t):
        c = t[i]
        i += 1
        if q == "'":
            if c == "'":
                q = None
            elif shell == 'fish' and c == '\\' and t[i:i + 1] in ('\\', "'"):
                res, i = res + t[i], i + 1
            elif shell == 'csh' and c == '\\' and t[i:i + 1] == '!':
                res, i = res + '!', i + 1
            elif shell == 'csh' and c == '!':
                return None
            else:
                res += c
        elif q == '"':
            if c == '"':
                q = None
            elif c in special:
                return None
            elif shell != 'csh' and c == '\\' and i < len(t) and t[i] in special + '"\\':
                res, i = res + t[i], i + 1
            elif shell == 'csh' and c == '!':
                return None
            else:
                res += c
        elif c in '\'"':
            q = c
        elif c == '\\':
            res, i = res + t[i:i + 1], i + 1
        elif c in special + meta or (shell == 'csh' and c == '!'):
            return None
        elif c in ' \t':
            rest = t[i:].lstrip(' \t\r')
            return res if not rest or rest[0] in '#;' else None
        else:
            res += c
    return None if q else res


def user_lines(b):
    """the lines that belong to the user: everything but settings of VSSCRIPT_PATH"""
    return [l.rstrip(b'\n') for l in re.split(rb'(?<=\n)', b) if l and not SETTING.match(l)]


def entries(d):
    return {k: tuple(str(x) for x in v[:3]) for k, v in d.items() if isinstance(v, list) and len(v) >= 3}


def view(b):
    """(parses as TOML, entries): of an unparsable file, the lines that are entries on their own"""
    if b is None:
        return True, {}
    try:
        return True, entries(tomllib.loads(b.decode('utf-8')))
    except (ValueError, UnicodeDecodeError):
        pass
    res = {}
    for l in b.split(b'\n'):
        try:
            for k, v in entries(tomllib.loads(l.decode('utf-8'))).items():
                res.setdefault(k, v)
        except (ValueError, UnicodeDecodeError):
            pass
    return False, res


# ---------------------------------------------------------------- search, minimisation, replay
class Sim:
    def __init__(self, base):
        self.base = base
        os.makedirs(base, exist_ok=True)
        self.module = load_module()
        self.shim = ctypes.CDLL(None)
        self.shim.fs_send.argtypes = [ctypes.c_char_p, ctypes.c_long]
        self.shim.fs_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_ulonglong]

    def run(self, sc, decisions=None, verbose=False):
        d = None if decisions is None else {s: (i, a, x) for s, i, a, x in decisions}
        return Run(sc, self.base, self.module, self.shim, d, verbose).run()

    def minimise(self, sc, res, budget=20):
        end = time.time() + budget
        kind, dec = res['violation'], res['decisions']

        def fails(s, d):
            if time.time() > end:
                return None
            r = self.run(s, d)
            return r if r['violation'] == kind else None
        best = (sc, dec, res)
        r = fails(sc, dec)
        if not r:
            return best
        progress = True
        while progress and time.time() < end:
            progress = False
            sc, dec, _ = best
            cand = []
            for i in range(len(dec)):
                cand.append((sc, dec[:i] + dec[i + 1:]))
            for i in range(len(sc['rounds']) - 1, -1, -1):
                if len(sc['rounds']) > 1:
                    cand.append((dict(sc, rounds=sc['rounds'][:i] + sc['rounds'][i + 1:]), dec))
                for j in range(len(sc['rounds'][i])):
                    if len(sc['rounds'][i]) > 1:
                        cand.append((dict(sc, rounds=sc['rounds'][:i] + [sc['rounds'][i][:j] + sc['rounds'][i][j + 1:]] + sc['rounds'][i + 1:]), dec))
            for f, c in sc['files'].items():
                if f.startswith('inst/'):
                    continue
                if f not in [os.path.normpath(t.replace('$ROOT/', '')) for t in sc['links'].values()]:
                    cand.append((dict(sc, files={k: v for k, v in sc['files'].items() if k != f}), dec))
                ls = c.split('\n')
                if len(ls) > 2:
                    for half in (ls[:len(ls) // 2] + [''], ls[len(ls) // 2:]):
                        cand.append((dict(sc, files={**sc['files'], f: '\n'.join(half)}), dec))
                    if len(ls) < 12:
                        for i in range(len(ls) - 1):
                            cand.append((dict(sc, files={**sc['files'], f: '\n'.join(ls[:i] + ls[i + 1:])}), dec))
            for s, d in cand:
                r = fails(s, d)
                if r:
                    best, progress = (s, d, r), True
                    break
                if time.time() > end:
                    break
        return best


def main(argv):
    cmd = argv[0]
    opts = {argv[i][2:]: argv[i + 1] for i in range(1, len(argv) - 1) if argv[i].startswith('--')}
    if cmd == 'replay':
        rep = json.load(open(argv[1]))
        base = os.environ.get('FSSIM_SCRATCH') or f'/dev/shm/fssim-{os.getpid()}'
        sim = Sim(base)
        r = sim.run(rep['scenario'], rep['decisions'], '-vv' in argv or '-v' in argv)
        shutil.rmtree(base, ignore_errors=True)
        print(json.dumps({'same': r['violation'] == rep['violation'] and r['hash'] == rep['hash'], 'hash': r['hash'], 'violation': r['violation'], 'msg': r['msg']}))
        return 1 if r['violation'] else 0
    prop, first = opts['prop'], int(opts['first'])
    if cmd == 'one':
        sim = Sim(opts['scratch'])
        sc = gen(prop, int(opts['seed']))
        if '--show' in argv:
            print(json.dumps(sc, indent=1, ensure_ascii=False))
        r = sim.run(sc, None, True)
        print(json.dumps(r))
        return 0
    w, n = map(int, opts['worker'].split('/'))
    sim = Sim(opts['scratch'])
    end = time.time() + float(opts['time'])
    maxruns = int(opts.get('runs', 1 << 60))
    t0, seed, runs = time.time(), first + w, 0
    tot = {'runs': 0, 'ops': 0, 'switches': 0, 'images': 0, 'rounds': 0, 'clients': 0, 'successes': 0, 'failures': 0, 'sim_seconds': 0.0, 'faults': {}, 'determinism_checked': 0, 'determinism_failed': 0, 'multi': 0, 'samples': []}
    inter = set()
    while time.time() < end and runs < maxruns:
        sc = gen(prop, seed)
        r = sim.run(sc)
        runs += 1
        for k in ('ops', 'switches', 'images', 'rounds', 'clients', 'successes', 'failures'):
            tot[k] += r['stats'][k]
        for k, v in r['stats']['faults'].items():
            tot['faults'][k] = tot['faults'].get(k, 0) + v
        tot['sim_seconds'] += r['sim']
        if r['stats']['faults'] or r['stats']['switches']:
            inter.add(r['inter'])
        if runs % 50 == 1:
            tot['determinism_checked'] += 1
            if sim.run(sc)['hash'] != r['hash'] or (not r['violation'] and sim.run(sc, r['decisions'])['hash'] != r['hash']):
                tot['determinism_failed'] += 1
                print(json.dumps({'nondet': seed}), flush=True)
        if len(tot['samples']) < 2 and r['stats']['faults']:
            tot['samples'].append({'seed': seed, 'scenario': sc, 'decisions': r['decisions'], 'operations': r['steps']})
        if r['violation']:
            orig = len(r['decisions'])
            sc2, d2, r2 = sim.minimise(sc, r, float(opts.get('minimise', 20)))
            r2 = sim.run(sc2, d2)
            path = os.path.join(opts['out'], f'{prop}-{seed}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'violation': r2['violation'], 'msg': r2['msg'], 'scenario': sc2, 'decisions': d2, 'hash': r2['hash'], 'decision_format': '[step, client, action (' + ', '.join(f'{k} {v}' for k, v in NAMES.items()) + '), errno or length]'}, f, indent=1)
            print(json.dumps({'violation': r2['violation'], 'msg': r2['msg'], 'seed': seed, 'replay': path, 'reproduced': r2['violation'] is not None, 'orig_decisions': orig, 'decisions': len(d2)}), flush=True)
            if not opts.get('keep'):
                break
        seed += n
    tot['runs'], tot['seconds'], tot['inter'] = runs, time.time() - t0, sorted(inter)
    print(json.dumps({'summary': tot}), flush=True)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
