"""Exhaustive exploration of the schedules of the asynchronous mode.

The event loop is replaced by one of which each callback is executed explicitly, and the
clock is replaced by one that makes the code yield after a given number of units of work.
A schedule determines after how many callbacks each of the operations takes place."""
import asyncio
import time

_REAL = {
    name: getattr(time, name)
    for name in ("perf_counter_ns", "monotonic_ns", "time_ns", "perf_counter", "monotonic")
}


class Clock:
    """Virtual time: each time that the clock is read, some time has passed."""

    now = None  # None: real time
    step = 0

    @classmethod
    def tick(cls):
        cls.now += cls.step
        return cls.now


def _ns(name):
    def read():
        return _REAL[name]() if Clock.now is None else Clock.tick()

    return read


def _s(name):
    def read():
        return _REAL[name]() if Clock.now is None else Clock.tick() / 1e9

    return read


# (before collagraph is imported)
for _name in ("perf_counter_ns", "monotonic_ns", "time_ns"):
    setattr(time, _name, _ns(_name))
for _name in ("perf_counter", "monotonic"):
    setattr(time, _name, _s(_name))


class Handle:
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args
        self.cancelled_ = False

    def cancel(self):
        self.cancelled_ = True

    def cancelled(self):
        return self.cancelled_


class Loop(asyncio.SelectorEventLoop):
    """Event loop that only executes callbacks when it is told to"""

    def __init__(self):
        super().__init__()
        self.queue = []

    def call_soon(self, callback, *args, context=None):
        if not hasattr(self, "queue"):
            return super().call_soon(callback, *args, context=context)
        handle = Handle(callback, args)
        self.queue.append(handle)
        return handle

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_soon(callback, *args)

    def call_at(self, when, callback, *args, context=None):
        return self.call_soon(callback, *args)

    def run_next(self):
        """Execute the first callback"""
        handle = self.queue.pop(0)
        if not handle.cancelled_:
            asyncio._set_running_loop(self)
            try:
                handle.fn(*handle.args)
            finally:
                asyncio._set_running_loop(None)


class Policy(asyncio.DefaultEventLoopPolicy):
    loop = None
    loops = []

    def get_event_loop(self):
        return Policy.loop


def setup():
    """To be called once for each execution"""
    if Policy.loop is None:
        Policy.loops = [Loop() for _ in range(5)]
        asyncio.set_event_loop_policy(Policy())
    Policy.loop = Policy.loops[0]
    for loop in Policy.loops:
        loop.queue.clear()
    return Policy.loop


def next_loop():
    """From now on there is another event loop, as with asyncio.run() for instance"""
    Policy.loop = Policy.loops[Policy.loops.index(Policy.loop) + 1]
    return Policy.loop
