"""Simulated wall clock.  Wake-T reads wall time only for reporting; the
simulator may let it stand still, run, jump forwards or backwards."""
import time as _time

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter


class SimClock:
    def __init__(self):
        self.now = 1.7e9
        self.reads = 0
        self.jumps = []      # list of (read index, delta)
        self.step = 1e-4

    def configure(self, step=1e-4, jumps=()):
        self.now, self.reads = 1.7e9, 0
        self.step, self.jumps = step, list(jumps)

    def read(self):
        self.reads += 1
        self.now += self.step
        for at, delta in self.jumps:
            if at == self.reads:
                self.now += delta
        return self.now


CLOCK = SimClock()


def install():
    """Point the modules used by Wake-T at the simulated clock.  The harness
    itself keeps the real clock through the names saved above."""
    _time.time = CLOCK.read
    import tqdm.std
    import tqdm._monitor
    tqdm.std.time = CLOCK.read
    tqdm.std.tqdm.monitor_interval = 0     # no real monitor thread


def uninstall():
    _time.time = real_time
