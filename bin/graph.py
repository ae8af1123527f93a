"""Plans out of the coder's state graph as TLC explored it (spec/GenCoder.tla).

Every state and every transition of the graph, and every refused call in every
state, is replayed on the real code. The answers are judged by TraceCoder."""
import json
from collections import deque

from gen import ops_case, run


class Graph:
    def __init__(self, text):
        self.univ, self.states = None, {}
        for line in text.split("\n"):
            if line.startswith('"@'):
                line = json.loads(line)
            if line.startswith("@U"):
                self.univ = json.loads(line[2:])
            elif line.startswith("@S"):
                s = json.loads(line[2:])
                self.states[(s["i"], s["e"], s["k"])] = s
        if not self.univ or not self.states:
            raise ValueError("no graph")
        self._search()

    def calls(self, i, e):
        return self.univ[i - 1]["enc" if e else "dec"]

    def succ(self, n):
        """(call index, target node or None if it breaks, bytes written)"""
        s = self.states.get(n)
        for j, t in enumerate(s["t"] if s else []):
            if t[0] == 1:
                yield j, (n[0], n[1], t[1]), t[2]
            elif t[0] == 2:
                yield j, None, 0

    def _search(self):
        # shortest paths from the initial states, and to finished states
        targets = set(m for n in self.states for _, m, _ in self.succ(n) if m)
        roots = [n for n in self.states if n not in targets]
        self.path = {n: [] for n in roots}
        q = deque(sorted(roots, key=str))
        back = {}
        while q:
            n = q.popleft()
            for j, m, _ in self.succ(n):
                if m and m in self.states:
                    back.setdefault(m, []).append((n, j))
                    if m not in self.path:
                        self.path[m] = self.path[n] + [j]
                        q.append(m)
        self.done = {n: [] for n in self.states if self.states[n]["f"]}
        q = deque(sorted(self.done, key=str))
        while q:
            m = q.popleft()
            for n, j in back.get(m, ()):
                if n not in self.done:
                    self.done[n] = [j] + self.done[m]
                    q.append(n)

    def plan(self, n, calls, lim=-1):
        i, e, _ = n
        u = self.calls(i, e)
        return ops_case(run(self.univ[i - 1]["s"], e, [u[j] for j in calls], inp=self.states[n]["inp"], lim=lim))

    def plans(self):
        """Yields (sort, case)."""
        for n in sorted(self.path, key=str):
            s = self.states[n]
            i, e, _ = n
            every = list(range(len(self.calls(i, e))))
            refused = [j for j, t in enumerate(s["t"]) if t[0] == 0]
            here = self.path[n]
            # all that is refused here, then on to the end
            yield "state", self.plan(n, here + refused + self.done.get(n, []) + refused)
            wrote = None
            for j, m, out in self.succ(n):
                if m is None:
                    yield "break", self.plan(n, here + [j] + every)
                    continue
                if self.path.get(m) != here + [j]:
                    yield "edge", self.plan(n, here + [j] + self.done.get(m, []))
                if e and out:
                    if wrote is None:
                        wrote = 0
                        p = here
                        at = self._root(n)
                        for x in p:
                            y = [z for z in self.succ(at) if z[0] == x][0]
                            wrote += y[2]
                            at = y[1]
                    for k in range(out):
                        yield "fault", self.plan(n, here + [j] + every, lim=wrote + k)

    def _root(self, n):
        i, e, _ = n
        inp = self.states[n]["inp"]
        if not hasattr(self, "_roots"):
            self._roots = {(m[0], m[1], tuple(self.states[m]["inp"])): m for m, p in self.path.items() if not p}
        return self._roots[(i, e, tuple(inp))]
