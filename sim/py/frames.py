"""Property P24: frames held by Python code, their planes, views and properties, against a model of values."""
import ctypes
import gc
import math
import sys

import _simhost as sim

vs = sys.modules['vapoursynth']
FORMATS = [int(vs.GRAY8), int(vs.YUV420P8), int(vs.RGB24)]
SIZES = [(8, 4), (64, 2), (2, 2), (33, 3)]
KEYS = ['a', 'b', 'k_1', 'Zz', 'q9']
TEXTS = ['', 'x', 'text', 'caf\u00e9', 'a\0b', '\u20ac' * 5]


def bad(kind, msg):
    sim.oracle('P24', kind, msg)


class Model:
    """what is known about a frame, shared by everything that refers to the same one"""

    def __init__(self, planes, sizes, props):
        self.planes, self.sizes, self.props, self.racy, self.writable = planes, sizes, props, False, False
        self.audio = False

    def copy(self):
        m = Model([bytearray(p) for p in self.planes], self.sizes, {k: list(v) for k, v in self.props.items()})
        m.racy, m.audio = self.racy, self.audio
        return m

    def reaches(self, other):
        return self is other or any(isinstance(x, tuple) and x[0] == 'frame' and x[1].reaches(other) for v in self.props.values() for x in v)


class Held:
    def __init__(self, frame, model, ro):
        self.frame, self.model, self.ro, self.closed, self.shared = frame, model, ro, False, False
        if not ro and model:
            model.writable = True


class View:
    def __init__(self, view, model, plane, ro):
        self.view, self.model, self.plane, self.ro = view, model, plane, ro

    def check(self, where):
        if self.model.racy:
            return
        w, h = self.model.sizes[self.plane]
        got = self.view.tobytes()
        sim.count('value_checks')
        if tuple(self.view.shape) != ((w // 2,) if self.model.audio else (h, w)) or got != bytes(self.model.planes[self.plane]):
            at = next((i for i in range(min(len(got), w * h)) if got[i] != self.model.planes[self.plane][i]), -1)
            bad('view-changed', f'{where}: the view of plane {self.plane} shows {got[at]} at {at % w},{at // w} instead of {self.model.planes[self.plane][at]} (shape {tuple(self.view.shape)})')


class Frames:
    def op_fr(self, W, me, code, a, b, c, d):
        if not hasattr(me, 'slots'):
            me.slots, me.views, me.its = {}, [], []
        gone = W.state == 2
        me.touched = me.loose = False
        me.where = f'{code} {a} {b} {c} {d}'
        try:
            getattr(self, 'fr_' + code)(W, me, int(a), int(b), int(c), int(d))
        except Exception as e:
            e.__traceback__ = None if W.state else e.__traceback__
            if not W.gone(e) and not (isinstance(e, RuntimeError) and (W.state or me.loose)):
                raise
            return
        if gone and me.touched:
            bad('used-after-destroy', f'client {me.id}, {me.where}: a frame can be used although its environment has been destroyed')

    def held(self, me, a):
        live = sorted(me.slots)
        if not live:
            return None
        h = me.slots[live[a % len(live)]]
        me.loose |= h.shared  # other threads may close it at any time
        return h

    def use(self, W, me, h, f):
        """runs f, which must fail if the frame is closed"""
        try:
            r = f()
        except RuntimeError:
            if h.closed or W.state:
                return None
            raise
        me.touched = True
        if h.closed:
            bad('used-after-close', f'client {me.id}, {me.where}: a closed frame can be used')
        return r

    # -------------------------------------------------------------- values
    def canon(self, v, known=None):
        vs_ = v if isinstance(v, list) else [v]
        res = []
        for x in vs_:
            if isinstance(x, (vs.VideoFrame, vs.AudioFrame)):
                res.append(('frame', x))
            elif isinstance(x, vs.Func):
                res.append(('func',))
            elif isinstance(x, vs.VideoNode):
                res.append(('node', x.num_frames))
            else:
                res.append(x)
        return res

    def same(self, W, me, got, want, where):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if isinstance(w, tuple) and w[0] == 'frame':
                if not (isinstance(g, tuple) and g[0] == 'frame'):
                    return False
                self.check_planes(W, me, g[1], w[1], where)
            elif type(g) is not type(w) or g != w:
                return False
        return True

    def check_planes(self, W, me, f, model, where):
        if model.racy:
            return
        for p, (w, h) in enumerate(model.sizes):
            View(f[p], model, p, True).check(where)

    def check_props(self, W, me, f, model, where):
        if model.racy:
            return
        keys = list(f.props)
        if sorted(keys) != sorted(model.props) or len(f.props) != len(keys):
            bad('wrong-properties', f'client {me.id}, {where}: the properties are {sorted(keys)}, expected {sorted(model.props)}')
        for k in keys:
            v = self.canon(f.props[k])
            if not self.same(W, me, v, model.props[k], where):
                bad('wrong-properties', f'client {me.id}, {where}: property {k} is {v!r:.200}, expected {model.props[k]!r:.200}')

    def make_value(self, W, me, kind, val):
        """a value and what is to come back"""
        if kind == 0:
            x = [0, 1, -1, 2**63 - 1, -2**63, 77][val % 6]
            return x, [x]
        if kind == 1:
            x = [0.0, -1.5, math.inf, 1e300][val % 4]
            return x, [x]
        if kind == 2:
            x = TEXTS[val % len(TEXTS)]
            return x, [x]
        if kind == 3:
            x = [b'', b'\0\xff', b'bytes' * 3][val % 3]
            return (bytearray(x) if val % 2 else x), [x]
        if kind == 4:
            x = [val % 7 + i for i in range(val % 4 + 1)]
            return x, list(x)
        if kind == 5:
            x = [TEXTS[(val + i) % len(TEXTS)] for i in range(val % 3 + 1)]
            return tuple(x), list(x)
        if kind == 6:
            return (lambda x=0: x), [('func',)]
        if kind == 7 and W.nodes:
            n = list(W.nodes.values())[val % len(W.nodes)]
            return n.clip, [('node', n.frames)]
        if kind == 8:
            return [1, 'x', 2], None  # not of the same type
        return object(), None

    # -------------------------------------------------------------- operations
    def fr_new(self, W, me, a, b, c, d):
        if c % 5 == 4:
            return self.new_audio(W, me, a, b, c, d)
        fmt, (w, h) = FORMATS[b % 3], SIZES[c % 4]
        if fmt == int(vs.YUV420P8):
            w, h = w + w % 2, h + h % 2
        sizes = [(w, h)] if b % 3 == 0 else [(w, h), (w // 2, h // 2), (w // 2, h // 2)] if b % 3 == 1 else [(w, h)] * 3
        f = W.core.create_video_frame(fmt, w, h)
        me.touched = True
        planes = []
        for p, (w, h) in enumerate(sizes):
            planes.append(bytearray((d * 31 + p * 7 + i) & 255 for i in range(w * h)))
            if d % 2:
                v = f[p]
                for y in range(h):
                    for x in range(w):
                        v[y, x] = planes[p][y * w + x]
            else:
                q, st = f.get_write_ptr(p), f.get_stride(p)
                for y in range(h):
                    ctypes.memmove(q.value + y * st, bytes(planes[p][y * w:y * w + w]), w)
        me.slots[a % 6] = Held(f, Model(planes, sizes, {}), False)

    def new_audio(self, W, me, a, b, c, d):
        w = [1, 7, 16, 40][d % 4]
        channels = [[0], [0, 1], [2, 0, 5]][b % 3]
        f = W.core.std.BlankAudio(channels=channels, bits=16, sampletype=0, length=w).get_frame(0)
        me.touched = True
        model = Model([bytearray(2 * w) for _ in channels], [(2 * w, 1)] * len(channels), {})
        model.audio = True
        if f.props:
            bad('wrong-frame', f'client {me.id}, {me.where}: a blank frame has the properties {dict(f.props)}')
        self.check_planes(W, me, f, model, f'client {me.id}, {me.where}')
        if d % 3:
            f = f.copy()
            for p, x in enumerate(model.planes):
                v = f[p]
                for i in range(w):
                    v[i] = d * 31 + p * 7 + i
                x[:] = b''.join((d * 31 + p * 7 + i).to_bytes(2, 'little') for i in range(w))
        me.slots[a % 6] = Held(f, model, d % 3 == 0)

    def fr_get(self, W, me, a, b, c, d):
        n = list(W.nodes.values())[b % len(W.nodes)]
        k = c % n.frames
        f = n.clip.get_frame(k)
        me.touched = True
        planes = W.planes(n, k)
        sizes = [(n.w, n.h)] + [(n.w // 2, n.h // 2)] * 2 if len(planes) == 3 else [(n.w, n.h)]
        m = Model([bytearray(x) for x in planes], sizes, {})
        for key in f.props:
            m.props[key] = [('frame', Model([bytearray(W.alpha_plane(n, k))], [self.alpha_size(W, n, k)], {})) if isinstance(x, tuple) and x[0] == 'frame' else x for x in self.canon(f.props[key])]
        v = W.value(n, k)
        if (m.props.get('SimSrc'), m.props.get('SimN')) != ([v[1]], [v[2]]) or set(m.props) - set(v[3]) - {'SimSrc', 'SimN', 'SimCall', 'SimFn', '_Alpha'}:
            bad('shared-frame-changed', f'client {me.id}, {me.where}: frame {k} of node {n.id} has the properties {m.props!r:.300}')
        self.check_planes(W, me, f, m, f'frame {k} of node {n.id}')
        me.slots[a % 6] = Held(f, m, True)

    def alpha_size(self, W, n, k):
        v = W.value(n, k)
        return {1: (n.w, n.h), 2: (n.w + 40, n.h * 3), 4: (n.w // 2, 1)}[W.nodes[v[1]].alpha]

    def fr_copy(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None or h.ro and h.model.writable:
            return  # a frame that is in the properties of another one while it can still be written
        f = self.use(W, me, h, lambda: h.frame.copy())
        if f is not None:
            if f.readonly:
                bad('wrong-frame', f'client {me.id}, {me.where}: a copy is read only')
            me.slots[b % 6] = Held(f, h.model.copy(), False)

    def fr_view(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None or h.ro and h.model.writable:
            return
        p = b % len(h.model.sizes)
        v = self.use(W, me, h, lambda: h.frame[p])
        if v is not None:
            if v.readonly != h.ro:
                bad('wrong-frame', f'client {me.id}, {me.where}: writable {not v.readonly} view of a frame that is writable {not h.ro}')
            v = View(v, h.model, p, h.ro)
            v.check(f'client {me.id}, {me.where}')
            me.views.append(v)
            if len(me.views) > 8:
                me.views.pop(0)

    def fr_wview(self, W, me, a, b, c, d):
        if not me.views:
            return
        v = me.views[a % len(me.views)]
        w, h = v.model.sizes[v.plane]
        x, y = b % w, c % h
        try:
            if v.model.audio:  # samples of two bytes
                q = v.model.planes[v.plane][x & -2:(x & -2) + 2]
                q[x & 1] = d & 255
                v.view[x // 2] = int.from_bytes(q, 'little', signed=v.view.format.islower())
            else:
                v.view[y, x] = d & 255
        except TypeError:
            if v.ro:
                return
            raise
        if v.ro:
            bad('read-only-written', f'client {me.id}, {me.where}: a view of a read only frame can be written')
        v.model.planes[v.plane][y * w + x] = d & 255
        self.fr_views(W, me, a, b, c, d)

    def fr_views(self, W, me, a, b, c, d):
        for v in me.views:
            v.check(f'client {me.id}, {me.where}')

    def fr_ptr(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None:
            return
        p = b % len(h.model.sizes)
        w, hh = h.model.sizes[p]
        x, y = c % w, d % hh
        if h.ro:
            try:
                h.frame.get_write_ptr(p)
            except (vs.Error, RuntimeError):
                return
            bad('read-only-written', f'client {me.id}, {me.where}: a read only frame has a write pointer')

        def write():
            q = h.frame.get_write_ptr(p)
            ctypes.memset(q.value + (0 if h.model.audio else y * h.frame.get_stride(p)) + x, d & 255, 1)
            return True
        if W.state == 0 and self.use(W, me, h, write):
            h.model.planes[p][y * w + x] = d & 255
            self.fr_views(W, me, a, b, c, d)

    def fr_read(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None:
            return

        def read():
            where = f'client {me.id}, {me.where}'
            f = h.frame
            if f.closed:
                return f.props
            if (f.readonly, len(f)) != (h.ro, len(h.model.sizes)):
                bad('wrong-frame', f'{where}: read only {f.readonly}, {len(f)} planes')
            if b % 3 == 0:
                self.check_planes(W, me, f, h.model, where)
            elif b % 3 == 1 and not h.model.racy and not h.model.audio:
                got = b''.join(bytes(x) for x in f.readchunks())
                sim.count('value_checks')
                if got != b''.join(h.model.planes):
                    bad('wrong-frame', f'{where}: readchunks() differs')
            elif not h.model.racy and W.state == 0:
                for p, (w, hh) in enumerate(h.model.sizes):
                    q, st = f.get_read_ptr(p), 0 if h.model.audio else f.get_stride(p)
                    got = b''.join(ctypes.string_at(q.value + y * st, w) for y in range(hh))
                    sim.count('value_checks')
                    if got != bytes(h.model.planes[p]):
                        bad('wrong-frame', f'{where}: the pixels at the read pointer of plane {p} differ')
            self.check_props(W, me, f, h.model, where)
        self.use(W, me, h, read)

    def readonly_error(self, W, me, h, f):
        """an operation that changes the properties; whether it has been done"""
        try:
            f()
        except (vs.Error, RuntimeError) as e:
            if W.state and not h.ro:
                self.taint(h.model)  # done in part, perhaps
            if W.state or (h.ro if isinstance(e, vs.Error) else h.closed):
                return False
            raise
        me.touched = True
        if h.closed:
            bad('used-after-close', f'client {me.id}, {me.where}: a closed frame can be changed')
        elif h.ro:
            bad('read-only-written', f'client {me.id}, {me.where}: properties of a read only frame can be changed')
        return True

    def fr_set(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None:
            return
        key = KEYS[b % 5]
        val, want = self.make_value(W, me, c % 10, d)
        with W.wrapped.use():
            if want is None:
                try:
                    done = self.readonly_error(W, me, h, lambda: h.frame.props.__setitem__(key, val))
                except vs.Error:
                    if not h.ro and key in h.model.props and key not in h.frame.props:
                        del h.model.props[key]  # either the old value or none
                    return
                if W.state:
                    self.taint(h.model)  # the old value may be gone
                if done:
                    bad('wrong-properties', f'client {me.id}, {me.where}: {val!r:.100} is accepted')
            elif self.readonly_error(W, me, h, lambda: setattr(h.frame.props, key, val) if d % 2 else h.frame.props.__setitem__(key, val)):
                h.model.props[key] = want
        val = None

    def fr_setframe(self, W, me, a, b, c, d):
        h, g = self.held(me, a), self.held(me, c)
        if h is None or g is None or g.model.reaches(h.model) or g.closed:
            return
        h.model.racy |= g.shared
        if self.readonly_error(W, me, h, lambda: h.frame.props.__setitem__(KEYS[b % 5], [g.frame] * (d % 3 + 1))):
            h.model.props[KEYS[b % 5]] = [('frame', g.model)] * (d % 3 + 1)

    def fr_getframe(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None or h.model.racy:
            return
        for k, v in h.model.props.items():
            if isinstance(v[0], tuple) and v[0][0] == 'frame':
                r = self.use(W, me, h, lambda: h.frame.props[k])
                if r is not None:
                    me.slots[b % 6] = Held(r[0] if isinstance(r, list) else r, v[0][1], True)
                return

    def fr_del(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None:
            return
        key = KEYS[b % 5]
        had = key in h.model.props
        p = []

        def change():
            q = h.frame.props
            if c % 4 == 0:
                del q[key]
            elif c % 4 == 1:
                p.append(q.pop(key, 'default'))
            elif c % 4 == 2:
                p.append(q.setdefault(key, 5))
            else:
                q.clear()
        if c % 4 in (1, 2) and h.ro or h.model.racy:
            return
        if c % 4 == 3 and h.ro and not h.model.props:
            return
        if not self.readonly_error(W, me, h, change):
            return
        if c % 4 == 3:
            h.model.props.clear()
        elif c % 4 == 2:
            if not had:
                h.model.props[key] = [5]
        else:
            if c % 4 == 1:
                v = self.canon(p[0])
                if not self.same(W, me, v, h.model.props.get(key, ['default']), me.where):
                    bad('wrong-properties', f'client {me.id}, {me.where}: pop() gives {v!r:.200}, expected {h.model.props.get(key)!r:.200}')
            h.model.props.pop(key, None)

    def fr_update(self, W, me, a, b, c, d):
        h, g = self.held(me, a), self.held(me, b)
        if h is None or g is None or h is g or h.ro or g.closed or h.closed or h.model.racy or g.model.racy or g.model.reaches(h.model) or h.model is g.model:
            return
        try:
            if c % 2:
                h.frame.props = g.frame.props.copy()
                h.model.props = {k: list(v) for k, v in g.model.props.items()}
            else:
                h.frame.props.update(g.frame.props)
                h.model.props.update({k: list(v) for k, v in g.model.props.items()})
        except RuntimeError:
            if not W.state:
                raise
            return
        me.touched = True

    def fr_iterdel(self, W, me, a, b, c, d):
        """properties that change, or are released, while they are iterated"""
        h = self.held(me, a)
        if h is None or h.closed:
            return
        seen = []
        try:
            for k in h.frame.props if c % 2 else h.frame.props.keys():
                me.touched = True
                seen.append(k)
                if len(seen) > 100:
                    bad('wrong-properties', f'client {me.id}, {me.where}: the iteration does not end')
                    break
                if d % 3 == 0 and not h.ro:
                    del h.frame.props[k]
                    h.model.props.pop(k, None)
                elif d % 3 == 1 and not h.ro and len(seen) < 3:
                    h.frame.props['new%d' % len(seen)] = len(seen)
                    h.model.props['new%d' % len(seen)] = [len(seen)]
                elif d % 3 == 2 and len(seen) > b % 3:
                    h.closed = True
                    h.frame.close()
        except (RuntimeError, vs.Error):
            pass  # what iterating does then is not said, but it does nothing else

    def fr_iterkeep(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None or h.closed:
            return
        me.its.append(iter(h.frame.props) if b % 3 == 0 else iter(h.frame.props.items()) if b % 3 == 1 or h.model.audio else h.frame.readchunks())
        if len(me.its) > 3:
            me.its.pop(0)
        self.fr_next(W, me, a, 1, c, d)

    def fr_next(self, W, me, a, b, c, d):
        if not me.its:
            return
        it = me.its[a % len(me.its)]
        try:
            for _ in range(b % 4 + 1):
                next(it)
        except (StopIteration, RuntimeError, KeyError, vs.Error):
            pass

    def fr_gen(self, W, me, a, b, c, d):
        """a property set from something that works on the frame meanwhile"""
        h = self.held(me, a)
        if h is None or h.closed or h.ro:
            return

        def values():
            for i in range(c % 4 + 1):
                yield i
            if d % 4 == 0:
                h.closed = True
                h.frame.close()
                self.taint(h.model)  # whether the value is set then is not said
            elif d % 4 == 1:
                me.slots[b % 6] = Held(h.frame.copy(), None, False)
            elif d % 4 == 2:
                del h.frame.props[KEYS[b % 5]]
            else:
                self.gap()
            x = [W.core.create_video_frame(FORMATS[0], 8, 4) for _ in range(3)]
            yield 50
        try:
            h.frame.props[KEYS[b % 5]] = values()
            me.touched = True
        except (RuntimeError, vs.Error):
            if not h.closed and not W.state:
                raise
            self.taint(h.model)
            if me.slots.get(b % 6) and me.slots[b % 6].model is None:
                del me.slots[b % 6]
            return
        if d % 4 == 1 and b % 6 in me.slots and me.slots[b % 6].model is None:
            k = me.slots[b % 6]
            k.model = h.model.copy()
            k.model.writable = True
            k.model.props.pop(KEYS[b % 5], None)
            if KEYS[b % 5] in k.frame.props and not k.model.racy:
                k.model.props[KEYS[b % 5]] = self.canon(k.frame.props[KEYS[b % 5]])
        if not h.closed and not h.model.racy:
            got = self.canon(h.frame.props[KEYS[b % 5]])
            want = [50] if d % 4 == 2 else list(range(c % 4 + 1)) + [50]
            if got != want:
                bad('wrong-properties', f'client {me.id}, {me.where}: the property is {got}, expected {want}')
            h.model.props[KEYS[b % 5]] = want

    def gap(self):
        sim.sleep(20)

    def fr_close(self, W, me, a, b, c, d):
        h = self.held(me, a)
        if h is None:
            return
        if b % 2:
            with h.frame:
                pass
        else:
            h.frame.close()
        h.closed = True
        if not h.frame.closed:
            bad('wrong-frame', f'client {me.id}, {me.where}: the frame is not closed')
        self.fr_views(W, me, a, b, c, d)

    def fr_drop(self, W, me, a, b, c, d):
        if me.slots:
            del me.slots[sorted(me.slots)[a % len(me.slots)]]
        if b % 3 == 0:
            gc.collect()
        self.fr_views(W, me, a, b, c, d)

    def fr_share(self, W, me, a, b, c, d):
        """frames used by several threads at once: anything but memory errors"""
        h = self.held(me, a)
        if h is not None and not h.closed:
            self.taint(h.model)
            h.shared = True
            self.shared.append(h.frame)
            if len(self.shared) > 4:
                self.shared.pop(0)

    def taint(self, m):
        m.racy = True
        for v in m.props.values():
            for x in v:
                if isinstance(x, tuple) and x[0] == 'frame':
                    self.taint(x[1])

    def fr_steal(self, W, me, a, b, c, d):
        if not self.shared:
            return
        try:
            f = self.shared[a % len(self.shared)]
        except (IndexError, ZeroDivisionError):
            return
        try:
            for i in range(c % 4 + 1):
                x = (b + i * 5) % 9
                if x == 0:
                    f.close()
                elif x == 1:
                    dict(f.props)
                elif x == 2:
                    f.props[KEYS[d % 5]] = [d, d + 1, d + 2]
                elif x == 3:
                    f.props[KEYS[d % 5]] = [f.copy(), f.copy()]
                elif x == 4:
                    f.copy()[0].tolist()
                elif x == 5:
                    f[0].tolist()
                elif x == 6:
                    for k in f.props:
                        del f.props[k]
                elif x == 7:
                    list(f.props.items())
                elif isinstance(f, vs.VideoFrame):
                    b''.join(bytes(x) for x in f.readchunks())
        except (RuntimeError, vs.Error, KeyError):
            pass

    def frames_end(self, W, me):
        if not hasattr(me, 'slots'):
            return
        try:
            for h in list(me.slots.values()):
                if not h.closed and not h.shared and not W.state:
                    self.check_planes(W, me, h.frame, h.model, 'at the end')
                    self.check_props(W, me, h.frame, h.model, 'at the end')
        except (RuntimeError, vs.Error):
            if not W.state:
                raise
        h = None
        for v in me.views:
            v.check('at the end')
            self.late.append(v)
        me.slots.clear()
        me.views.clear()
        me.its.clear()

    def late_views(self, where):
        for v in self.late:
            v.check(where)
