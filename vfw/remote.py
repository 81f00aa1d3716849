"""Stand-in for the 'erised' package: each Proxy is an actor that handles its messages in the order they were sent;
which actor runs next is drawn by SCHEDULE (the workload's generator), so that every run is a different interleaving.
Only the surface the package uses: proxy.a.b(...) -> future, proxy.a.b.retrieve() -> future, proxy.a.b = value,
wait_all_futures(), terminate()."""
import collections

ACTORS = []
LOG = []  # (actor number, operation) in execution order
SCHEDULE = [None]


def reset(rng=None):
    ACTORS.clear()
    LOG.clear()
    SCHEDULE[0] = rng


class Future:
    def __init__(self, actor, what, fn):
        self.actor, self.what, self.fn = actor, what, fn
        self.ready, self.value, self.error = False, None, None

    def run(self):
        LOG.append((self.actor.number, self.what))
        try:
            self.value = self.fn()
        except Exception as e:  # reported to whoever asks for the result
            self.error = e
        self.ready = True

    def done(self):
        return self.ready

    def result(self, timeout=None):
        while not self.ready:
            waiting = [a for a in ACTORS if a.queue]
            rng = SCHEDULE[0]
            a = self.actor if rng is None else waiting[int(rng.integers(len(waiting)))]
            a.queue.popleft().run()
        if self.error is not None:
            raise self.error
        return self.value


class Actor:
    def __init__(self, obj):
        self.obj, self.queue, self.alive = obj, collections.deque(), True
        self.number = len(ACTORS)
        ACTORS.append(self)

    def send(self, what, fn):
        if not self.alive:
            raise RuntimeError("the process was terminated")
        f = Future(self, what, fn)
        self.queue.append(f)
        return f


class _Path:
    def __init__(self, actor, path):
        self.__dict__.update(_actor=actor, _path=path)

    def _resolve(self, path=None):
        o = self._actor.obj
        for n in self._path if path is None else path:
            o = getattr(o, n)
        return o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Path(self._actor, self._path + (name,))

    def __setattr__(self, name, value):
        self._actor.send("set " + name, lambda: setattr(self._resolve(), name, value))

    def __call__(self, *a, **k):
        return self._actor.send("call " + ".".join(self._path), lambda: self._resolve()(*a, **k))

    def retrieve(self):
        return self._actor.send("get " + ".".join(self._path), self._resolve)


class Proxy(_Path):
    def __init__(self, obj=None, **_):
        super().__init__(Actor(obj), ())

    def wait_all_futures(self):
        while self._actor.queue:
            self._actor.queue.popleft().run()

    def terminate(self):
        self._actor.alive = False
        self._actor.queue.clear()
