"""Walking a state graph printed by TLC through the real code.

`transitions` is a list of {'s','o','r','t'}: pre-state, operation, result and
post-state, exactly as the specification computed them.  Every transition is
executed at least once against the implementation."""
from __future__ import annotations
import json, os, random, signal
from collections import deque
from concurrent.futures import ProcessPoolExecutor
from contextlib import contextmanager
from typing import Any, Callable


class Hang(Exception):
    pass


@contextmanager
def time_limit(seconds: float):
    def handler(signum, frame):
        raise Hang('the call does not return')
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def key(st: Any) -> str:
    return json.dumps(st, sort_keys=True)


class Graph:
    def __init__(self, transitions: list[dict]) -> None:
        self.states: list[Any] = []
        self.index: dict[str, int] = {}
        self.out: list[list[tuple[dict, int]]] = []
        indeg: list[int] = []
        seen = set()
        self.edges = 0
        for tr in transitions:
            a, b = self._id(tr['s']), self._id(tr['t'])
            ek = (a, json.dumps(tr['o'], sort_keys=True))
            if ek in seen:
                continue
            seen.add(ek)
            self.out[a].append((tr, b))
            self.edges += 1

    def _id(self, st: Any) -> int:
        k = key(st)
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.states)
            self.states.append(st)
            self.out.append([])
        return i

    def walks(self, is_initial: Callable[[Any], bool],
              max_len: int = 60) -> list[tuple[Any, list[dict]]]:
        """Walks from initial states that together cover every edge."""
        roots = [i for i, s in enumerate(self.states) if is_initial(s)]
        parent: dict[int, tuple[int, dict] | None] = {r: None for r in roots}
        queue = deque(roots)
        order = []
        while queue:
            a = queue.popleft()
            order.append(a)
            for tr, b in self.out[a]:
                if b not in parent:
                    parent[b] = (a, tr)
                    queue.append(b)
        todo = {a: list(range(len(self.out[a]))) for a in order}
        result = []
        for a in order:
            while todo[a]:
                path = []
                cur = a
                while parent[cur] is not None:
                    p, tr = parent[cur]
                    path.append(tr)
                    cur = p
                root = cur
                path.reverse()
                cur = a
                while todo[cur] and len(path) < max_len:
                    tr, b = self.out[cur][todo[cur].pop()]
                    path.append(tr)
                    cur = b
                result.append((self.states[root], path))
        return result


def pmap(fn: Callable, items: list, procs: int = 8, chunk: int = 50) -> list:
    """Ordered parallel map in forked workers (serial for small inputs)."""
    if len(items) < 4:
        return [fn(i) for i in items]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, os.cpu_count() or 1)) as pool:
        return pool.map(fn, items, chunksize=max(1, min(chunk, len(items) // procs + 1)))
