"""Runs inside the simulator (see py_sim.cpp): drives the real Python module on the simulated engine and checks
what it delivers against a small model."""
import gc
import importlib.util
import sys
import threading
import traceback
import weakref
import io
import concurrent.futures
import logging
import collections

import __main__
import _simhost as sim

_spec = importlib.util.spec_from_file_location('vapoursynth', __main__.SIM_REPO + '/src/py/__init__.py', submodule_search_locations=[__main__.SIM_EXT, __main__.SIM_REPO + '/src/py'])
vs = importlib.util.module_from_spec(_spec)
sys.modules['vapoursynth'] = vs
_spec.loader.exec_module(vs)

import frames

NO_AUTOLOAD = int(vs.CoreCreationFlags.DISABLE_AUTO_LOADING) if hasattr(vs, 'CoreCreationFlags') else 2


class Policy(vs.EnvironmentPolicy):
    """an environment per thread, as in script hosts; or one for the whole process"""

    def __init__(self, single):
        self.single = single
        self.tls = threading.local()
        self.env = None

    def on_policy_registered(self, api):
        self.api = api

    def get_current_environment(self):
        return self.env if self.single else getattr(self.tls, 'env', None)

    def set_environment(self, env):
        if not self.is_alive(env):
            env = None
        if self.single:
            return self.env
        prev = getattr(self.tls, 'env', None)
        self.tls.env = env
        return prev


class Stderr(io.TextIOBase):
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


class Sink:
    """a file that may fail or, like unbuffered files, write less than it's given"""

    def __init__(self, fail, slow, how=0):
        self.fail, self.slow, self.how, self.writes, self.data, self.failed, self.flushed = fail, slow, how, 0, bytearray(), False, False

    def write(self, b):
        if self.writes == self.fail:
            sim.count('fault_write_eio')
            self.failed = True
            raise OSError(5, 'simulated write error')
        self.writes += 1
        self.flushed = False
        size = len(b)
        if self.how & 1 and size > 1 and self.writes * 2654435761 >> 7 & 1:
            sim.count('fault_write_short')
            size = 1 + (size - 1) * (self.writes % 7) // 8
        self.data += bytes(b)[:size]
        if self.slow:
            sim.sleep(self.slow)
        return None if self.how & 2 and size == len(b) else size

    def flush(self):
        if self.how & 4:
            sim.count('fault_write_eio')
            self.failed = True
            raise OSError(5, 'simulated write error')
        self.flushed = True


PROP = 'P17'  # what the oracles about frames and requests report to


def bad(prop, kind, msg):
    sim.oracle(PROP if prop == 'P17' else prop, kind, msg)


def ints(s):
    return [int(x) for x in s.split(',') if x not in ('', '-')]


class Node:
    pass


class World:
    """one environment with its nodes"""

    def __init__(self, run, cfg, nodes, id=0):
        self.run = run
        self.cfg = cfg
        self.id = id
        self.env = run.policy.api.create_environment(NO_AUTOLOAD | (int(vs.CoreCreationFlags.ENABLE_GRAPH_INSPECTION) if cfg.get('inspect', '0') == '1' else 0))
        if run.policy.single:
            run.policy.env = self.env
        self.wrapped = run.policy.api.wrap_environment(self.env)
        self.state = 0  # 1: being destroyed, 2: destroyed
        self.destroyers = 0
        self.doomed = False
        self.lock = threading.Lock()
        self.futures, self.recs = [], []
        self.frames, self.destroyed, self.marks, self.log, self.taps = [], collections.Counter(), [], [], {}
        with self.wrapped.use():
            self.core = vs.core.core
            self.core.std.LoadPlugin('/simulated/simsource.so')
            self.core.num_threads = int(cfg.get('threads', 2))
            self.nodes, self.funcs, self.infuncs = {}, [], []
            for d in nodes:
                self.make(d)

    def gone(self, e):
        """an error that may be due to the destruction of the environment"""
        if self.state and isinstance(e, Exception) and not isinstance(e, concurrent.futures.TimeoutError):
            sim.count('node_references_dropped_early')
            return True
        return False

    def make(self, d):
        n = Node()
        n.id = int(d['id'])
        n.kind = d['kind']
        n.fails = set(ints(d.get('fails', '-')))
        n.calls = collections.Counter()
        core = self.core
        if n.kind == 'src':
            n.frames = int(d['frames'])
            n.w, n.h, n.fmt = int(d['w']), int(d['h']), int(d['fmt'])
            n.alpha = int(d.get('alpha', 0))
            n.clip = core.sim.Source(id=n.id, frames=n.frames, width=n.w, height=n.h, format=n.fmt, cost=int(d.get('cost', 0)), fails=sorted(n.fails) or None, slow=ints(d.get('slow', '-')) or None, mode=int(d.get('mode', 0)), text=int(d.get('text', 0)), chat=int(d.get('chat', 0)), alpha=n.alpha)
        else:
            deps = [self.nodes[x] for x in ints(d['deps']) if x in self.nodes]
            if not deps:
                return
            n.deps = deps
            n.w, n.h, n.fmt = deps[0].w, deps[0].h, deps[0].fmt
            n.frames = deps[0].frames
            n.deps = deps = [x for x in deps if (x.w, x.h, x.fmt) == (n.w, n.h, n.fmt)]
            n.nest = int(d.get('nest', 0))
            n.base = int(d.get('base', 0))
            clips = [x.clip for x in deps]
            exc = {'0': RuntimeError, '1': vs.Error, '2': concurrent.futures.CancelledError, '3': KeyboardInterrupt}[d.get('exc', '0')]
            text = int(d.get('text', 0))
            tail = '\udce9t\udcff' if text == 1 else '.' * text + '\u20ac' * 2000 if text else ''
            fails, nid, nest, frames0, env = n.fails, n.id, n.nest, deps[0].frames, self.env
            run, calls = self.run, n.calls
            mark = Node()
            self.marks.append((n.id, weakref.ref(mark)))

            def enter(k, mark=mark):
                calls[k] += 1
                if run.policy.get_current_environment() is not env:
                    bad('P21', 'callback-environment', f'the function of node {nid} runs without its environment')
                sim.note(f'py function node {nid} frame {k}')
                if nest:
                    sim.count('requests_nested_blocking')
                    with deps[-1].clip.get_frame((k * nest) % deps[-1].frames) as f:
                        f.props['SimN']
                    if run.policy.get_current_environment() is not env:
                        bad('P21', 'callback-environment', f'the function of node {nid} is without its environment after a nested request')
                if k in fails:
                    sim.count('fault_filter_failure')
                    raise exc(f'boom {nid} {k} ' + tail)
            if n.kind == 'eval':
                def fe(n, f=None):
                    f = None  # (an exception keeps what its traceback refers to until it is delivered)
                    enter(n)
                    return clips[n % len(clips)]
                n.clip = core.std.FrameEval(clips[0], fe, prop_src=clips if n.base else None, clip_src=clips)
            elif n.kind == 'modify':
                def mf(n, f):
                    try:
                        enter(n)
                    except BaseException:
                        f = None
                        raise
                    g = f.copy()
                    g.props['Mod%d' % nid] = n * 7 + nid
                    return g
                n.clip = core.std.ModifyFrame(clips[0], clips[0], mf)
        self.nodes[n.id] = n

    # -------------------------------------------------------------- the model
    def value(self, n, k):
        """('ok', source id, source frame, {prop: value}) or ('err', [texts, one of which must be in the message])"""
        k = min(k, n.frames - 1)
        if n.kind == 'src':
            return ('err', ['simfail %d %d' % (n.id, k)]) if k in n.fails else ('ok', n.id, k, {})
        texts = []
        if n.nest:
            v = self.value(n.deps[-1], (k * n.nest) % n.deps[-1].frames)
            if v[0] == 'err':
                texts += v[1]
        if not texts and k in n.fails:
            texts.append('boom %d %d' % (n.id, k))
        if n.kind == 'eval':
            if n.base:  # all sources are requested before the function is called
                pre = [t for x in n.deps for t in self.err(x, k)]
                if pre:
                    return ('err', pre)
            if texts:
                return ('err', texts)
            return self.value(n.deps[k % len(n.deps)], k)
        v = self.value(n.deps[0], k)
        if v[0] == 'err':
            return v
        if texts:
            return ('err', texts)
        return ('ok', v[1], v[2], {**v[3], 'Mod%d' % n.id: k * 7 + n.id})

    def err(self, n, k):
        v = self.value(n, k)
        return v[1] if v[0] == 'err' else []

    def check_frame(self, n, k, f, where):
        v = self.value(n, k)
        try:
            p = dict(f.props)
        except (RuntimeError, vs.Error) as e:
            if self.gone(e):
                return
            raise
        if 'SimCall' in p and len(self.funcs) < 4:
            self.funcs.append((p['SimSrc'], p['SimN'], p['SimCall']))
        got = (p.get('SimSrc'), p.get('SimN'))
        if v[0] == 'err':
            return bad('P17', 'error-lost', f'{where}: frame {k} of node {n.id} is delivered although it fails ({v[1]})')
        if got != (v[1], v[2]):
            return bad('P17', 'wrong-frame', f'{where}: frame {k} of node {n.id} is frame {got[1]} of source {got[0]}, expected frame {v[2]} of source {v[1]}')
        mods = {a: b for a, b in p.items() if a.startswith('Mod')}
        if mods != v[3]:
            return bad('P17', 'wrong-frame', f'{where}: frame {k} of node {n.id} carries {mods}, expected {v[3]}')
        if not self.doomed and f[0][0, 0] != (v[1] * 101 + v[2] * 7) % 256 and n.fmt == int(vs.GRAY8):
            return bad('P17', 'wrong-frame', f'{where}: pixels of frame {k} of node {n.id}')
        sim.count('answers_frame')
        sim.count('value_checks')

    def check_error(self, n, k, e, where):
        v = self.value(n, k)
        sim.count('answers_error')
        if v[0] != 'err' and self.gone(e):
            return
        if v[0] != 'err':
            return bad('P17', 'unexpected-error', f'{where}: frame {k} of node {n.id} fails: {type(e).__name__} {str(e)[-300:]}')
        s = str(e) or repr(e)
        if not any(t in s for t in v[1]) and not self.gone(e):
            return bad('P17', 'wrong-error', f'{where}: frame {k} of node {n.id} fails with {s[-200:]!r}, expected {v[1]}')
        if isinstance(e, concurrent.futures.TimeoutError):
            bad('P17', 'wrong-error', f'{where}: {e!r}')

    # -------------------------------------------------------------- expected output
    def planes(self, n, k):
        v = self.value(n, k)
        if v[0] == 'err':
            return None
        res = []
        for p in range(3 if n.fmt != int(vs.GRAY8) else 1):
            w, h = (n.w, n.h) if p == 0 else (n.w // 2, n.h // 2)
            res.append(bytes((v[1] * 101 + v[2] * 7 + p * 3 + y * 5 + x) & 255 for y in range(h) for x in range(w)))
        return res

    def alpha_plane(self, n, k):
        v = self.value(n, k)
        w, h = {1: (n.w, n.h), 2: (n.w + 40, n.h * 3), 4: (n.w // 2, 1)}[self.nodes[v[1]].alpha]
        return bytes((v[1] * 101 + v[2] * 7 + 50 + y * 5 + x) & 255 for y in range(h) for x in range(w))


class Run(frames.Frames):
    def __init__(self, prop, lines):
        self.prop = prop
        self.cfg = {}
        self.nodes, self.ops, self.threads, self.world_ops = [], collections.OrderedDict(), {}, {}
        for l in lines:
            w = l.split()
            if w[0] == 'cfg':
                self.cfg[w[1]] = w[2]
            elif w[0] == 'node':
                d = dict(x.split('=', 1) for x in w[2:])
                d['id'] = w[1]
                self.nodes.append(d)
            elif w[0] == 'thr':
                self.threads[int(w[1])] = dict(x.split('=', 1) for x in w[2:])
            elif w[0] == 'world':
                self.world_ops.setdefault(int(w[1]), []).append(w[2:])
            elif w[0] == 'op':
                self.ops.setdefault(int(w[1]), []).append(w[2:])
        self.taps = 0
        self.unregistered = False
        self.kept, self.shared, self.late = [], [], []
        self.lock = threading.Lock()

    def new_tap(self):
        with self.lock:
            self.taps += 1
            return self.taps

    # -------------------------------------------------------------- operations
    def op_iter(self, W, me, nid, prefetch, backlog, close, stop, how, delay):
        n = W.nodes.get(int(nid))
        if n is None:
            return
        prefetch, backlog, close, stop, delay = int(prefetch), int(backlog), close == '1', int(stop), int(delay)
        if W.doomed:
            with W.lock:
                have = W.taps.get(n.id)
                if not have:
                    return
                tid, tap = have.pop()
        else:
            tid = self.new_tap()
            with W.wrapped.use():
                tap = W.core.sim.Tap(n.clip, tid)
        p = prefetch if prefetch > 0 else int(self.cfg.get('threads', 2))
        b = p * 3 if backlog < 0 else max(backlog, p)
        sim.limits(tid, p, b)
        where = f'iterator {tid} (prefetch {prefetch}, backlog {backlog}, close {close})'
        try:
            it = tap.frames(prefetch if prefetch >= 0 else None, backlog if backlog >= -1 else None, close)
        except BaseException as e:
            if not W.gone(e):
                raise
            return
        k = 0
        ended = False
        prev = None
        while k != stop:
            sim.next(tid, 1)
            dead = W.state == 2
            try:
                f = next(it)
            except StopIteration:
                ended = True
                sim.next(tid, -1)
                if k != n.frames:
                    bad('P17', 'iteration-short', f'{where} ends after {k} of {n.frames} frames')
                break
            except BaseException as e:
                ended = True
                sim.next(tid, -1)
                W.check_error(n, k, e, where)
                break
            sim.next(tid, 0)
            if dead and not f.closed:
                bad('P21', 'used-after-destroy', f'{where} delivers frame {k} after the environment has been destroyed')
            if prev is not None and not prev.closed:
                bad('P17', 'not-closed', f'{where}: frame {k - 1} is still open')
            if k >= n.frames:
                bad('P17', 'iteration-long', f'{where} delivers more than {n.frames} frames')
            W.check_frame(n, k, f, where)
            sim.note(f'{where} delivers {k}')
            if delay:
                sim.sleep(delay)
            if close:
                prev = f
            elif k % 3 == 0:
                f.close()
            f = None
            k += 1
        if not ended:
            sim.next(tid, -1)
            sim.count('node_references_dropped_early')
            if how == 'close':
                it.close()
            elif how == 'keep':
                self.kept.append((W, n, k, where, it))
        it = None
        tap = None

    def op_get(self, W, me, nid, k):
        n = W.nodes.get(int(nid))
        if n is None:
            return
        k = int(k) % n.frames
        sim.count('requests_blocking')
        dead = W.state == 2
        try:
            f = n.clip.get_frame(k)
        except BaseException as e:
            return W.check_error(n, k, e, 'get_frame')
        if dead:
            bad('P21', 'used-after-destroy', f'get_frame of node {n.id} succeeds after its environment has been destroyed')
        W.check_frame(n, k, f, 'get_frame')
        if k % 2:
            f.close()
        elif W.doomed:
            W.frames.append(f)

    def op_async(self, W, me, nid, k):
        n = W.nodes.get(int(nid))
        if n is None:
            return
        k = int(k) % n.frames
        try:
            f = n.clip.get_frame_async(k)
        except BaseException as e:
            if not W.gone(e):
                raise
            return
        if W.state == 0:
            W.futures.append(f)
        me.futures.append((W, n, k, f))

    def op_acb(self, W, me, nid, k, chain):
        n = W.nodes.get(int(nid))
        if n is None:
            return
        k, chain = int(k) % n.frames, int(chain)
        fut = concurrent.futures.Future()
        calls = [0]
        env = W.env if me.world is W else me.world.env if me.world else None

        def start(k, left):
            def cb(result, error):
                calls[0] += 1
                if calls[0] > 1 + chain - left:
                    bad('P17', 'callback-twice', f'the callback of frame {k} of node {n.id} is called twice')
                cur = self.policy.get_current_environment()
                if me.env and cur is not env and not me.world.state:
                    bad('P21', 'callback-environment', 'the callback of a request does not run in the environment that made the request')
                if error is not None:
                    W.check_error(n, k, error, 'callback')
                else:
                    W.check_frame(n, k, result, 'callback')
                rec[0] = True
                if left > 0:
                    sim.count('requests_from_callback')
                    start((k + 1) % n.frames, left - 1)
                else:
                    fut.set_result(None)
            rec = [False]
            try:
                n.clip.get_frame_async(k, cb)
            except BaseException as e:
                if not W.gone(e):
                    raise
                fut.set_result(None)
                return
            if W.state == 0:
                W.recs.append(rec)
        start(k, chain)
        me.events.append(fut)

    def op_wait(self, W, me):
        for w, n, k, f in me.futures:
            try:
                r = f.result()
            except BaseException as e:
                w.check_error(n, k, e, 'future')
                continue
            w.check_frame(n, k, r, 'future')
            if w.doomed and k % 3:
                w.frames.append(r)
        me.futures.clear()
        for f in me.events:
            f.result()
        me.events.clear()

    def op_output(self, W, me, nid, prefetch, backlog, y4m, fail, slow, how=0):
        n = W.nodes.get(int(nid))
        if n is None:
            return
        tid = self.new_tap()
        try:
            with W.wrapped.use():
                tap = W.core.sim.Tap(n.clip, tid)
            prefetch, backlog, y4m = int(prefetch), int(backlog), y4m == '1'
            sim.limits(tid, prefetch if prefetch > 0 else W.core.num_threads, 1 << 40)
        except Exception as e:
            if W.gone(e):
                return
            raise
        sink = Sink(int(fail), int(slow), int(how))
        progress = []
        where = f'output {tid} of node {n.id}'
        want, err, badalpha = b'', None, False
        for k in range(n.frames):
            ps = W.planes(n, k)
            if ps is None:
                err = k
                break
            if y4m:
                want += b'FRAME\n'
            want += b''.join(ps)
            alpha = W.nodes[W.value(n, k)[1]].alpha
            if alpha == 3 or alpha and y4m:
                badalpha = True
                break
            if alpha:
                want += W.alpha_plane(n, k)
        raised = None
        try:
            tap.output(sink, y4m, lambda a, b: progress.append((a, b)), prefetch, backlog)
        except BaseException as e:
            raised = e
        got = bytes(sink.data)
        partial = sink.failed or raised is not None and W.gone(raised)  # the header may not be complete
        if y4m:
            header, nl, rest = got.partition(b'\n')
            if not (header.startswith(b'YUV4MPEG2 ') and nl or partial and b'YUV4MPEG2 '.startswith(header[:10])):
                bad('P17', 'wrong-output', f'{where}: starts with {header[:40]!r}')
            got = rest
        if not want.startswith(got):
            at = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), len(want))
            bad('P17', 'wrong-output', f'{where}: byte {at} of {len(want)} differs ({len(got)} bytes written)')
        if raised is not None and W.gone(raised):
            pass
        elif sink.failed:
            if not isinstance(raised, OSError) or raised.errno != 5:
                bad('P17', 'write-error-lost', f'{where}: a failing write is not reported ({raised!r})')
        else:
            if len(got) != len(want):
                bad('P17', 'wrong-output', f'{where}: {len(got)} of {len(want)} bytes written, {"frame %d fails" % err if err is not None else "unsuitable alpha" if badalpha else "no frame fails"} ({raised!r})')
            if badalpha:
                if not isinstance(raised, (ValueError, vs.Error)):
                    bad('P17', 'error-lost', f'{where} with unsuitable alpha: {raised!r}')
            elif err is not None:
                if raised is None:
                    bad('P17', 'error-lost', f'{where} succeeds although frame {err} fails')
                else:
                    W.check_error(n, err, raised, where)
            else:
                if raised is not None:
                    bad('P17', 'unexpected-error', f'{where} fails: {raised!r}')
                if not sink.flushed:
                    bad('P17', 'wrong-output', f'{where}: the file is not flushed')
                if progress != [(i, n.frames) for i in range(n.frames + 1)]:
                    bad('P17', 'progress', f'{where}: progress reported as {progress[:40]}')
        raised = None

    def op_call(self, W, me, wid, which):
        """functions found in the properties of frames"""
        w = self.worlds[int(wid) % len(self.worlds)]
        funcs = list(w.funcs)
        if not funcs:
            return
        id, n, f = funcs[int(which) % len(funcs)]
        sim.note(f'function of frame {n} of source {id}')
        sim.count('value_checks')
        gone = w.state == 2
        try:
            r = f(x=int(which))
        except Exception as e:
            if not w.gone(e):
                raise
            return
        if gone:
            bad('P21', 'used-after-destroy', f'a function of environment {w.id} is called after it has been destroyed')
        if r != id * 1000000 + n * 1000 + int(which):
            bad('P17', 'wrong-value', f'function of frame {n} of source {id} returns {r} for {which}')

    def op_clear(self, W, me, nid):
        n = W.nodes.get(int(nid))
        if n is not None:
            sim.count('cache_clears')
            try:
                if n.id % 2:
                    W.core.clear_cache()
                else:
                    n.clip.clear_cache()
            except vs.Error as e:
                if not W.gone(e):
                    raise

    def op_gc(self, W, me):
        gc.collect()

    def op_sleep(self, W, me, us):
        sim.count('sim_sleeps')
        sim.sleep(int(us))

    def op_log(self, W, me, text):
        sim.count('messages_logged')
        if me.env:
            try:
                W.core.log_message(vs.MESSAGE_TYPE_INFORMATION, f'{me.id} {text}')
            except vs.Error as e:
                if not W.gone(e):
                    raise

    def op_handler(self, W, me, add):
        try:
            if add == '1':
                h = W.core.add_log_handler(lambda t, m: W.log.append(m))
                me.handlers.append(h)
            elif me.handlers:
                W.core.remove_log_handler(me.handlers.pop())
        except vs.Error as e:
            if not W.gone(e):
                raise

    def op_make(self, W, me, nid, which):
        """filters are created while the environment may be destroyed"""
        n = W.nodes.get(int(nid))
        if n is None:
            return
        sim.count('value_checks')
        gone = W.state == 2
        try:
            k = int(which)
            with W.wrapped.use():
                c = n.clip[:1] if k == 0 else n.clip + n.clip if k == 1 else W.core.std.FrameEval(n.clip, lambda n: None) if k == 2 else W.core.std.BlankClip(length=1) if k == 3 else W.core.sim.Source(id=99, frames=1, width=8, height=2, format=n.fmt, mode=0, chat=1)
            vs.VideoNode.num_frames.__get__(c)
        except Exception as e:
            if not W.gone(e):
                raise
            return
        if gone:
            bad('P21', 'used-after-destroy', f'a filter is created in environment {W.id} after it has been destroyed')

    def client(self, W, me):
        try:
            if me.env and not self.policy.single:
                with W.wrapped.use():
                    self.client2(W, me)
            else:
                self.client2(W, me)
        except BaseException as e:
            me.crash = ''.join(traceback.format_exception(e))

    def client2(self, W, me):
        for op in self.ops.get(me.id, []):
            w = W
            if op[0] in ('get', 'async', 'acb', 'iter', 'clear', 'output', 'make'):
                w = self.home.get(int(op[1]), W)
            getattr(self, 'op_' + op[0])(w, me, *op[1:])
            if me.env and not self.policy.single and not W.state and self.policy.get_current_environment() is not W.env:
                bad('P21', 'environment-lost', f'client {me.id} is without its environment after {op}')
        self.op_wait(W, me)
        self.frames_end(W, me)

    # -------------------------------------------------------------- the end of environments
    def op_cross(self, W, me, wid, nid, k):
        """a request made with another environment active"""
        w2 = self.worlds[int(wid) % len(self.worlds)]
        try:
            with w2.wrapped.use():
                self.op_get(self.home.get(int(nid), W), me, nid, k)
        except RuntimeError as e:
            if not w2.gone(e):
                raise

    def op_nest(self, W, me, aid, bid, pause, kill):
        """environments entered within each other, while one of them is destroyed"""
        if self.policy.single:
            return
        cur, (a, b) = self.policy.get_current_environment, [self.worlds[int(x) % len(self.worlds)] for x in (aid, bid)]
        home = {w.env: w for w in self.worlds}

        def expect(want, what):
            w, e = home.get(want), cur()
            if e is want or e is None and w.state:
                return
            bad('P21', 'environment-lost', f'client {me.id} is in environment {home[e].id if e in home else e} instead of {w.id if w else None} {what}')
        outer = cur()
        sim.count('value_checks')
        with a.wrapped.use():
            expect(a.env, 'after entering it')
            with b.wrapped.use():
                expect(b.env, 'after entering it within another one')
                if kill == '1':
                    self.op_destroy(W, me, aid)
                    expect(b.env, f'after destroying environment {a.id}')
                elif int(pause):
                    sim.sleep(int(pause))
                expect(b.env, 'after a while')
            expect(a.env, f'after leaving environment {b.id}')
        expect(outer, f'after leaving environment {a.id}')

    def op_outputs(self, W, me, nid):
        """outputs belong to the environment"""
        n = W.nodes.get(int(nid))
        if n is None or not me.env or W.state:
            return
        try:
            with W.lock:
                n.clip.set_output(n.id)
                got = {k: v.clip for k, v in vs.get_outputs().items()}
        except BaseException as e:
            if not W.gone(e):
                raise
            return
        if W.state:
            return
        if self.policy.get_current_environment() is W.env and self.local.x != W.id:
            bad('P21', 'wrong-output', f'a local variable of environment {W.id} is {self.local.x}')
        for k, v in got.items():
            if k not in W.nodes or v is not W.nodes[k].clip:
                bad('P21', 'wrong-output', f'output {k} of environment {W.id} is not what was set')

    def op_destroy(self, W, me, wid):
        w = self.worlds[int(wid) % len(self.worlds)]
        with w.lock:
            w.destroyers += 1
            w.state = max(w.state, 1)
        sim.count('quiesce_points')
        sim.note(f'destroys environment {w.id}')
        try:
            self.policy.api.destroy_environment(w.env)
        except BaseException as e:
            bad('P21', 'destroy-failed', f'destroying environment {w.id} fails: ' + ''.join(traceback.format_exception(e))[-800:])
        sim.note(f'environment {w.id} is destroyed')
        with w.lock:  # whoever calls second may return before it is done
            w.destroyers -= 1
            last = w.destroyers == 0 and w.state == 1
        if last:
            self.destroyed(w)

    def destroyed(self, w):
        w.state = 2
        late = sum(1 for f in w.futures if not f.done())
        if late:
            bad('P21', 'unanswered', f'{late} requests made before environment {w.id} was destroyed are not answered when that has been done')
        late = sum(1 for x in w.recs if not x[0])
        if late:
            bad('P21', 'unanswered', f'{late} callbacks are still to run when environment {w.id} has been destroyed')
        for k, v in w.callbacks.items():
            if w.destroyed[k] != 1:
                bad('P21', 'destroy-callback', f'callback {k} ({v}) of environment {w.id} was called {w.destroyed[k]} times')
        raised = sum(1 for k in w.callbacks.values() if k == 'raise')
        if w.logged and sum(1 for m in w.logged if 'planned' in m) != raised:
            bad('P21', 'destroy-callback', f'{raised} callbacks fail while environment {w.id} is destroyed, its logger gets {w.logged[-5:]}')
        for f in list(w.frames):
            if not f.closed:
                bad('P21', 'frames-leaked', f'a frame of environment {w.id} is not released')
        if vs.Environment.alive.__get__(w.wrapped):
            bad('P21', 'destroy-failed', f'environment {w.id} is still alive')

    def on_destroy(self, w, key, kind, nid):
        def callback():
            w.destroyed[key] += 1
            if self.policy.get_current_environment() is not w.env:
                bad('P21', 'callback-environment', 'a function registered for the destruction of an environment runs without it')
            n = w.nodes.get(int(nid))
            if kind == 'raise':
                raise ValueError('planned')
            if kind == 'get' and n:
                try:
                    f = n.clip.get_frame(0)
                except BaseException as e:
                    return w.check_error(n, 0, e, 'get_frame while the environment is destroyed')
                w.check_frame(n, 0, f, 'get_frame while the environment is destroyed')
                w.frames.append(f)
            if kind == 'async' and n:
                w.futures.append(n.clip.get_frame_async(0))
            if kind == 'destroy':
                self.policy.api.destroy_environment(w.env)
            if kind == 'register':
                try:
                    vs.register_on_destroy(callback)
                except ValueError:
                    return
                bad('P21', 'destroy-callback', 'a callback is accepted while the environment is destroyed')
        return callback

    def uses(self, w, live):
        """everything that must raise an error once the environment is gone"""
        def async_(x):
            return x.clip.get_frame_async(0).result()

        def failed(f):
            e = f.exception()
            if e is not None:
                raise e
        core = w.core
        res = [('core.' + a, (lambda a=a: getattr(core, a))) for a in ('num_threads', 'max_cache_size', 'used_cache_size', 'flags', 'std', 'core_version', 'api_version')]
        res += [('core.plugins()', lambda: list(core.plugins())), ('core.clear_cache()', core.clear_cache), ('core.log_message()', lambda: core.log_message(0, 'x')), ('str(core)', lambda: str(core)),
                ('core.query_video_format()', lambda: core.query_video_format(vs.GRAY, vs.INTEGER, 8)), ('core.get_video_format()', lambda: core.get_video_format(vs.GRAY8)),
                ('core.create_video_frame()', lambda: core.create_video_frame(vs.GRAY8, 16, 16)), ('core.timings.enabled', lambda: core.timings.enabled), ('core.timings.freed_nodes', lambda: core.timings.freed_nodes),
                ('core.num_threads = 1', lambda: setattr(core, 'num_threads', 1)), ('core.max_cache_size = 1', lambda: setattr(core, 'max_cache_size', 1)),
                ('core.add_log_handler()', lambda: core.add_log_handler(lambda a, b: None)), ('core.remove_log_handler()', lambda: core.remove_log_handler(w.handler)),
                ('plugin.functions()', lambda: list(w.plugin.functions())), ('plugin.version', lambda: w.plugin.version), ('plugin.BlankClip', lambda: w.plugin.BlankClip), ('plugin.plugin_path', lambda: w.plugin.plugin_path), ('dir(plugin)', lambda: dir(w.plugin)),
                ('BlankClip()', lambda: w.blank())]
        for c in [n.clip for n in w.nodes.values()] + w.deps:
            res += [(f'{a} of a node', f) for a, f in (
                ('get_frame()', lambda c=c: c.get_frame(0)), ('get_frame_async()', lambda c=c: failed(c.get_frame_async(0))), ('get_frame_async(callback)', lambda c=c: c.get_frame_async(0, lambda a, b: None)),
                ('frames()', lambda c=c: next(c.frames())), ('clear_cache()', lambda c=c: c.clear_cache()), ('std', lambda c=c: c.std), ('slicing', lambda c=c: c[0:1]), ('addition', lambda c=c: c + c),
                ('set_output()', lambda c=c: c.set_output(0)), ('output()', lambda c=c: c.output(Sink(-1, 0))), ('Trim()', lambda c=c: w.trim(c, 0, 0)), ('node_name', lambda c=c: c.node_name))]
            if live:
                res += [('another environment taking a node', lambda c=c: live.core.std.Trim(c, 0, 0))]
        for f in w.frames[:3]:
            res += [('props of a frame', lambda f=f: f.props), ('plane of a frame', lambda f=f: f[0]), ('copy of a frame', lambda f=f: f.copy()), ('read pointer of a frame', lambda f=f: f.get_read_ptr(0)), ('stride of a frame', lambda f=f: f.get_stride(0))]
            if live:
                def put(f):
                    with live.wrapped.use():
                        g = live.core.create_video_frame(vs.GRAY8, 16, 16)
                        g.props['x'] = f
                res += [('another frame taking a frame', lambda f=f: put(f))]
        for f in [f[2] for f in w.funcs] + w.infuncs:
            res += [('a function', lambda f=f: f(x=1))]
            if live:
                def putf(f):
                    with live.wrapped.use():
                        g = live.core.create_video_frame(vs.GRAY8, 16, 16)
                        g.props['x'] = f
                res += [('another frame taking a function', lambda f=f: putf(f))]
        if self.policy.single and not self.unregistered:
            res += [('vs.core', lambda: vs.core.core)]
        return res

    def op_use(self, W, me, wid, which):
        w = self.worlds[int(wid) % len(self.worlds)]
        if w.state != 2:
            return
        live = next((x for x in self.worlds if not x.doomed), None)
        u = self.uses(w, live)
        name, f = u[int(which) % len(u)]
        sim.note(f'{name} after environment {w.id} has been destroyed')
        sim.count('value_checks')
        try:
            f()
        except Exception:
            return
        bad('P21', 'used-after-destroy', f'{name} raises no error after its environment has been destroyed')

    # -------------------------------------------------------------- the whole run
    def settle(self, what):
        for _ in range(2000):
            a, b = sim.stats(-1)
            if a == b:
                return
            sim.sleep(5000)
        bad('P17', 'unanswered', f'{a - b} of {a} requests are not answered {what}')

    def go(self):
        sys.setswitchinterval(float(self.cfg.get('switch', 0.005)))
        old, sys.stderr = sys.stderr, Stderr()
        global PROP
        PROP = self.prop if self.prop in ('P21', 'P24') else 'P17'
        self.policy = Policy(self.cfg.get('single', '0') == '1')
        vs.register_policy(self.policy)
        self.worlds, self.home = [], {}
        self.local = vs.Local()
        for i in range(int(self.cfg.get('worlds', 1))):
            w = World(self, self.cfg, [d for d in self.nodes if int(d.get('world', 0)) == i], i)
            self.worlds.append(w)
            for k in w.nodes:
                self.home[k] = w
        dooms = {int(op[1]) % len(self.worlds) for ops in self.ops.values() for op in ops if op[0] == 'destroy' or op[0] == 'nest' and op[4] == '1'}
        for w in self.worlds:
            w.doomed = w.id in dooms
            w.callbacks = {}
            w.logged, w.deps = [], []
            if self.prop != 'P21':
                continue
            w.doomed = w.doomed or w.id in [int(x) for x in ints(self.cfg.get('dooms', '-'))]
            with w.wrapped.use():
                w.plugin = w.core.std
                w.blank, w.trim = w.plugin.BlankClip, w.plugin.Trim
                w.handler = w.core.add_log_handler(lambda t, m, log=w.log: log.append(m))
                self.local.x = w.id
                if self.cfg.get('logger', '0') == '1':
                    mark = Node()
                    w.marks.append(('logger', weakref.ref(mark)))
                    w.logged = ['']
                    self.policy.api.set_logger(w.env, lambda t, m, log=w.logged, mark=mark: log.append(m))
                    mark = None
                w.deps = [d for x in w.nodes.values() for d in x.clip.dependencies] if self.cfg.get('inspect', '0') == '1' else []
                for i, op in enumerate(self.world_ops.get(w.id, [])):
                    if op[0] == 'callback':
                        w.callbacks[i] = op[1]
                        vs.register_on_destroy(self.on_destroy(w, i, op[1], op[2]))
                if w.doomed:
                    for ops in self.ops.values():
                        for op in ops:
                            if op[0] == 'iter' and int(op[1]) in w.nodes:
                                t = self.new_tap()
                                w.taps.setdefault(int(op[1]), []).append((t, w.core.sim.Tap(w.nodes[int(op[1])].clip, t)))
        if self.prop == 'P21' and self.cfg.get('inspect', '0') == '1':
            for w in self.worlds:
                with self.worlds[-1].wrapped.use():  # belongs to the environment of the node all the same
                    for x in w.nodes.values():
                        for v in x.clip._inputs.values():
                            for y in v if isinstance(v, list) else [v]:
                                if isinstance(y, vs.VideoNode):
                                    w.deps.append(y)
                                elif isinstance(y, vs.Func):
                                    w.infuncs.append(y)
            w = x = y = v = None
        W = self.worlds[0]
        us = []
        for t, a in self.threads.items():
            me = Node()
            me.id, me.env, me.futures, me.events, me.handlers, me.crash = t, a.get('env', '1') == '1' or self.policy.single, [], [], [], None
            w = self.worlds[int(a.get('world', 0)) % len(self.worlds)]
            me.world = w if me.env else None
            me.thread = threading.Thread(target=self.client, args=(w, me))
            us.append(me)
        for me in us:
            me.thread.start()
        for me in us:
            me.thread.join()
        for me in us:
            if me.crash:
                bad('P17', 'exception', f'client {me.id} fails: {me.crash[-1500:]}')
                bad('P21', 'exception', f'client {me.id} fails: {me.crash[-1500:]}')
        for w, n, k, where, it in self.kept:
            if w.state == 2:  # goes on with frames that were ready and are released now, then fails
                for _ in range(n.frames + 2):
                    try:
                        f = next(it)
                    except StopIteration:
                        if k < n.frames:
                            bad('P21', 'iteration-short', f'{where} ends without an error although its environment is gone')
                        break
                    except Exception:
                        break
                    k += 1
                    if not f.closed:
                        bad('P21', 'used-after-destroy', f'{where} delivers a frame after its environment has been destroyed')
        w = it = f = n = None
        self.kept.clear()
        self.shared.clear()
        if self.cfg.get('latekeep', '0') == '0':
            self.late.clear()
        self.settle('after every iterator is closed')
        text = ''.join(sys.stderr.text)
        if text and not any(w.state for w in self.worlds):
            bad('P17', 'swallowed-exception', text[-1500:])
        for w in self.worlds:
            if w.state == 0:
                for me in us:
                    if (me.world or W) is w:
                        for h in me.handlers:
                            w.core.remove_log_handler(h)
        us.clear()
        me = h = None
        for w in self.worlds:
            if any(not f.done() for f in w.futures):
                bad('P17', 'unanswered', 'a request is not answered although nothing is outstanding')
            w.futures.clear()
        alive = [w for w in self.worlds if w.state == 0]
        for w in alive:
            if not self.late:
                self.finish(w)
        if self.cfg.get('unregister', '0') == '1':
            for w in alive:
                w.state = 1
            self.policy.api.unregister_policy()
            self.unregistered = True
            for w in alive:
                w.state = 2
                self.destroyed(w)
        else:
            for w in alive:
                self.op_destroy(w, None, w.id)
        alive = None
        for w in self.worlds:
            w.futures.clear()
        live = next((w for w in self.worlds if not w.state), None)
        self.late_views('after the end of its environment')
        self.late.clear()
        if self.prop in ('P21', 'P24'):
            for w in self.worlds:
                if w.state == 2 and self.cfg.get('uses', '0') == '1':
                    for name, f in self.uses(w, live):
                        sim.note(f'{name} after environment {w.id} has been destroyed')
                        sim.count('value_checks')
                        try:
                            f()
                        except Exception:
                            continue
                        bad('P21', 'used-after-destroy', f'{name} raises no error after its environment has been destroyed')
            name = f = None
            for w in self.worlds:
                w.nodes.clear()
                w.frames.clear()
                w.deps.clear()
                w.funcs.clear()
                w.infuncs.clear()
            gc.collect()
            for w in self.worlds:
                for nid, m in w.marks:
                    if m() is not None:
                        bad('P21', 'function-leaked', f'the function of node {nid} is never released')
            if sim.cores():
                bad('P24' if self.prop == 'P24' else 'P21', 'core-leaked', f'{sim.cores()} cores are never freed although their environments are gone')
        sys.stderr = old

    def finish(self, W):
        # no frame may be alive once everything is dropped
        # (iterators that were dropped without being closed go on until their backlog is full)
        for _ in range(200):
            gc.collect()
            for n in W.nodes.values():
                n.clip.clear_cache()
            W.core.clear_cache()
            if W.core.used_cache_size == 0:
                break
            sim.sleep(5000)
        else:
            bad('P17', 'frames-leaked', f'{W.core.used_cache_size} bytes of frames stay allocated')


def run(prop, lines):
    Run(prop, lines).go()
