import os, sys, types, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *

check = Check("P16", "decoded file cache", assumptions=[
    "up to 5 paths and histories of up to 6 requests; array sizes are arbitrary integers; a file loads the same arrays each time unless it changed on disk",
    "a waiting request is modelled by the other load completing (or failing) while it waits",
])


class Arr:
    def __init__(self, nbytes, tag):
        self.nbytes, self.tag = nbytes, tag


class Mapped(Arr):
    pass


def build(c, entries, cap, sizes, mapped):
    """A decoder whose files have free sizes; returns (decoder, list of uncached loads)."""
    M = repo("dataset.decoder")
    core = repo("dataset.core")
    d = M.ProcessedNpzDecoder(boardsizes={(2, 2)}, runtime_context=core.DatasetRuntimeContext(4, 4, 1, 0, 1, "train"))
    loads = []

    def uncached(path):
        k = path[-1]
        loads.append(path)
        cls = Mapped if mapped[k] else Arr
        return {"bf": cls(sizes[k][0], (k, "bf", len(loads))), "vt": cls(sizes[k][1], (k, "vt", len(loads)))}
    d._load_uncached = uncached
    d._array_cache_capacity = entries
    d._array_cache_byte_capacity = cap
    return d, loads


class NpMap:
    """numpy with our stand-in memmap type"""
    memmap = Mapped

    def __init__(self, np_):
        self._np = np_

    def __getattr__(self, k):
        return getattr(self._np, k)


class Spec:
    """The documented cache: least recently used first, mapped files limited separately."""

    def __init__(self, entries, cap, mmap_cap, sizes, mapped):
        self.order, self.entries, self.cap, self.mmap_cap, self.sizes, self.mapped = [], entries, cap, mmap_cap, sizes, mapped

    def hit(self, k):
        return k in self.order

    def touch(self, k):
        if k in self.order:
            self.order.remove(k)
            self.order.append(k)
            return
        self.order.append(k)
        self.evict()

    def evict(self):
        m = [k for k in self.order if self.mapped[k]]
        for k in m[:max(0, len(m) - self.mmap_cap)]:
            self.order.remove(k)
        while True:
            l = [k for k in self.order if not self.mapped[k]]
            total = 0
            for k in l:
                total = total + self.sizes[k][0] + self.sizes[k][1]
            if len(l) <= 1 or not (len(l) > self.entries or bool(total > self.cap)):
                return
            self.order.remove(l[0])


def state(d):
    return [p[-1] for p in d._array_cache_values]


for _n, _mode in ((6, "count"), (5, "bytes"), (5, "mapped")):
    @check.obligation(f"requests get their own file's arrays and the cache stays within its limits ({_mode})", bounds=f"{_n} requests over 4 files, 1..3 entries, any sizes and byte limit, up to 2 mapped files kept",
                      covers=["hit", "miss", "evict"], budget=300, functions=["ProcessedNpzDecoder._load", "ProcessedNpzDecoder._evict_array_cache", "ProcessedNpzDecoder.cache_state"], n_=_n, mode_=_mode)
    def ob(c, n_, mode_):
        M = repo("dataset.decoder")
        keys = "abcd"[:4 if mode_ != "bytes" else 3]
        entries = int(c.int("entries", 1, 3))
        if mode_ == "bytes":
            sizes = {k: (c.zint(f"s{k}", 0, 1 << 40), c.zint(f"t{k}", 0, 1 << 40)) for k in keys}
            cap = c.zint("cap", 1, 1 << 42)
        else:
            sizes = {k: (1, 1) for k in keys}
            cap = 1 << 30
        mapped = {k: (i % 2 == 0 if mode_ == "mapped" and i < 3 else mode_ == "mapped") for i, k in enumerate(keys)}
        d, loads = build(c, entries, cap, sizes, mapped)
        mm = int(c.int("mm", 1, 2)) if mode_ == "mapped" else 16
        d._mmap_cache_capacity = mm
        sp = Spec(entries, cap, mm, sizes, mapped)
        with patched(M, "np", NpMap(M.np)):
            last = {}
            for s in range(n_):
                k = keys[int(c.int(f"k{s}", 0, len(keys) - 1))]
                hit = sp.hit(k)
                before = len(loads)
                out = d._load(f"/d/{k}")
                c.check(len(loads) - before == (0 if hit else 1), "a cached file was loaded again or a missing one was not loaded")
                c.check(all(a.tag[0] == k for a in out.values()) and set(out) == {"bf", "vt"}, "arrays of another file")
                c.check(not hit or out is last[k], "a cached request returned other arrays")
                last[k] = out
                sp.touch(k)
                c.cover("hit" if hit else "miss")
                if len(sp.order) < len(set(last)):
                    c.cover("evict")
                c.check(state(d) == sp.order, "cache holds other files than the most recently used ones within its limits")
                loaded = [x for x in sp.order if not mapped[x]]
                st = d.cache_state()
                total = 0
                for x in loaded:
                    total = total + sizes[x][0] + sizes[x][1]
                c.check(st["entries"] == len(loaded) and eq(st["bytes"], total), "reported cache content")
                c.check(len(loaded) <= max(1, entries) and sor(len(loaded) <= 1, total <= cap), "cache over its limits")
                c.check(not d._array_cache_loading, "a finished load is still marked as running")


@check.obligation("new limits take effect at once and nonsensical limits are refused", bounds="any limits, up to 4 cached files of any size", covers=["ok", "bad", "shrunk"], functions=["ProcessedNpzDecoder.configure_cache"])
def ob(c):
    M = repo("dataset.decoder")
    keys = "abcd"
    sizes = {k: (c.zint(f"s{k}", 0, 1 << 40), 0) for k in keys}
    mapped = {k: k == "d" for k in keys}
    d, loads = build(c, 6, 1 << 50, sizes, mapped)
    sp = Spec(6, 1 << 50, 16, sizes, mapped)
    with patched(M, "np", NpMap(M.np)):
        for k in keys:
            d._load(f"/d/{k}")
            sp.touch(k)
        bad = c.choose("bad", [None, ("entries", 0), ("entries", -1), ("entries", True), ("entries", 2.0), ("byte_capacity", 0), ("byte_capacity", -5), ("byte_capacity", "8")])
        if bad:
            kw = {"entries": 3, "byte_capacity": 100, bad[0]: bad[1]}
            expect_error(c, lambda: d.configure_cache(**kw), (ValueError, TypeError), "a nonsensical limit was accepted")
            c.check(state(d) == list(keys) and d._array_cache_capacity == 6 and d._array_cache_byte_capacity == 1 << 50, "a refused change left a trace")
            c.cover("bad")
            return
        n = int(c.int("n", 1, 4))
        cap = c.choose("cap", [1, 1 << 20, 1 << 39, 1 << 41])
        d.configure_cache(entries=n, byte_capacity=cap)
        sp.entries, sp.cap = n, cap
        sp.evict()
        c.check(state(d) == sp.order, "files kept after shrinking the cache")
        st = d.cache_state()
        c.check(st["capacity_entries"] == n and st["capacity_bytes"] == cap, "reported limits")
        c.cover("ok" if len(sp.order) == 4 else "shrunk")


@check.obligation("a failed load is reported, leaves no trace and can be retried", bounds="failure at any of 4 requests, any exception kind", covers=["fail", "retry"], functions=["ProcessedNpzDecoder._load"])
def ob(c):
    M = repo("dataset.decoder")
    sizes = {k: (1, 1) for k in "ab"}
    mapped = {k: False for k in "ab"}
    d, loads = build(c, 2, 100, sizes, mapped)
    plain = d._load_uncached
    exc = c.choose("exc", [ValueError, OSError, KeyboardInterrupt, MemoryError])
    fails = [bool(c.bool(f"fail{i}")) for i in range(4)]
    ks = ["ab"[int(c.int(f"k{i}", 0, 1))] for i in range(4)]
    attempt = [0]

    def uncached(path):
        if fails[attempt[0]]:
            raise exc("no")
        return plain(path)
    d._load_uncached = uncached
    cached = set()
    with patched(M, "np", NpMap(M.np)):
        for i in range(4):
            attempt[0] = i
            k = ks[i]
            try:
                out = d._load("/d/" + k)
            except BaseException as e:
                if not isinstance(e, exc) or e.args != ("no",):
                    raise
                c.check(k not in cached and fails[i], "a cached file was loaded again")
                c.check(set(state(d)) == cached, "a failed load changed the cache")
                c.cover("fail")
            else:
                c.check(k in cached or not fails[i], "a failed load was not reported")
                c.check(out["bf"].tag[0] == k, "arrays of another file")
                if any(fails[:i]) and k not in cached:
                    c.cover("retry")
                cached.add(k)
            c.check(not d._array_cache_loading, "a finished load is still marked as running")


class Cond:
    """A condition whose waiters resume when the event they wait for has happened."""

    def __init__(self, events):
        self.events, self.held, self.notified = events, 0, 0

    def __enter__(self):
        assert not self.held, "the lock is taken twice"
        self.held += 1

    def __exit__(self, *a):
        self.held -= 1

    def wait(self):
        assert self.held, "waiting without the lock"
        self.held -= 1
        try:
            if not self.events:
                raise RuntimeError("deadlock: waiting for a load nobody runs")
            self.events.pop(0)()
        finally:
            self.held += 1

    def notify_all(self):
        assert self.held, "notifying without the lock"
        self.notified += 1

    notify = notify_all


@check.obligation("a file being loaded by another worker is waited for, not loaded twice", bounds="one or two loads in progress, each finishing, failing or waking others by mistake", covers=["shared", "failed", "spurious", "evicted"],
                  functions=["ProcessedNpzDecoder._load"])
def ob(c):
    M = repo("dataset.decoder")
    sizes = {k: (1, 1) for k in "abc"}
    mapped = {k: False for k in "abc"}
    d, loads = build(c, int(c.int("entries", 1, 2)), 100, sizes, mapped)
    events = []
    cond = Cond(events)
    d._array_cache_condition = cond
    other = {"bf": Arr(1, ("a", "other")), "vt": Arr(1, ("a", "other"))}
    d._array_cache_loading.add("/d/a")
    how = c.choose("how", ["done", "failed", "evicted"])
    if bool(c.bool("spurious")):
        events.append(lambda: None)
        c.cover("spurious")

    def finish():
        d._array_cache_loading.remove("/d/a")
        if how != "failed":
            d._array_cache_values["/d/a"] = other
        if how == "evicted":
            del d._array_cache_values["/d/a"]
    events.append(finish)
    with patched(M, "np", NpMap(M.np)):
        # another file is not held up by the running load
        if bool(c.bool("unrelated")):
            out = d._load("/d/b")
            c.check(out["bf"].tag[0] == "b" and "/d/a" in d._array_cache_loading, "an unrelated request waited for another file")
        before = len(loads)
        out = d._load("/d/a")
    c.check(not events, "the running load was not waited for")
    if how == "done":
        c.check(out is other and len(loads) == before, "the file was loaded twice")
        c.cover("shared")
    else:
        c.check(len(loads) == before + 1 and out["bf"].tag[0] == "a", "the failed load was not repeated")
        c.cover("failed" if how == "failed" else "evicted")
    c.check(not d._array_cache_loading, "a finished load is still marked as running")


@check.obligation("finishing a load wakes the waiting requests", bounds="success and failure, any cache size", covers=["ok", "fail"], functions=["ProcessedNpzDecoder._load"])
def ob(c):
    M = repo("dataset.decoder")
    d, loads = build(c, 2, 100, {k: (1, 1) for k in "abc"}, {k: False for k in "abc"})
    cond = Cond([])
    d._array_cache_condition = cond
    fail = bool(c.bool("fail"))
    plain = d._load_uncached
    seen = []

    def uncached(path):
        c.check(cond.held == 0, "the lock is held while reading a file")
        c.check(path in d._array_cache_loading, "a running load is not announced")
        if fail:
            raise OSError("x")
        return plain(path)
    d._load_uncached = uncached
    with patched(M, "np", NpMap(M.np)):
        try:
            d._load("/d/a")
        except OSError:
            pass
    c.check(cond.notified >= 1 and cond.held == 0, "waiting requests are not woken")
    c.cover("fail" if fail else "ok")


@check.obligation("equivalent spellings of a path share one entry", bounds="relative, absolute and dotted spellings", covers=["done"], functions=["ProcessedNpzDecoder._load"])
def ob(c):
    M = repo("dataset.decoder")
    d, loads = build(c, 3, 100, {k: (1, 1) for k in "ab"}, {k: False for k in "ab"})
    base = os.path.join(os.getcwd(), "zz", "a")
    forms = [base, "zz/a", "./zz/a", "zz/../zz/a", os.path.join(os.getcwd(), "zz", ".", "a")]
    with patched(M, "np", NpMap(M.np)):
        x = d._load(forms[int(c.int("i", 0, 4))])
        y = d._load(forms[int(c.int("j", 0, 4))])
    c.check(x is y and len(loads) == 1, "one file cached under two names")
    c.cover("done")


if __name__ == "__main__":
    check.main()
