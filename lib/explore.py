"""Exhaustive exploration of the real model: graphs of reachable states and trees of all event histories."""
import collections
from sysm import Sys
from ref import Ref
from vp import Violation


def graph(make, check, out, cap=100000, key=None, weight=None, max_steps=400000, events=None, stop=None):
    """Online exploration: every state (by key) reachable from the initial one, every event available in it.
    make() -> Sys; check(sys, prev_state, event, state, history) is called on every step taken (and once with
    event None after each construction).  Returns True if the whole graph was covered."""
    key = key or (lambda s, st: st)
    nodes, edges = {}, {}
    complete = True

    def enter(s, st):
        k = key(s, st)
        if k not in nodes:
            nodes[k] = collections.deque(sorted(events(s, st) if events else set(s.events())))
            edges[k] = {}
            out.states += 1
        return k

    s, hist = make(), []
    st = s.state()
    check(s, None, None, st, hist)
    k0 = k = enter(s, st)
    steps = 0

    def path(k):
        seen, q = {k: None}, collections.deque([k])
        while q:
            x = q.popleft()
            if nodes[x]:
                p = []
                while seen[x] is not None:
                    x, e = seen[x]
                    p.append(e)
                return p[::-1]
            for e, y in edges[x].items():
                if y in nodes and y not in seen:
                    seen[y] = (x, e)
                    q.append(y)
        return None

    route = []
    while steps < max_steps:
        if nodes[k] and not route:
            if len(nodes) > cap:
                complete = False
                break
            e = nodes[k].popleft()
        else:
            if not route:
                route = path(k)
                if route is None:
                    if k == k0 and not hist:
                        break
                    s, hist = make(), []
                    st = s.state()
                    check(s, None, None, st, hist)
                    k = enter(s, st)
                    if path(k) is None:
                        break
                    continue
                if not route:
                    continue
            e = route.pop(0)
        if len(hist) > 2500:
            s, hist, route = make(), [], []
            st = s.state()
            check(s, None, None, st, hist)
            if nodes[k] is not None:
                nodes[k].append(e) if e not in edges[k] else None
            k = enter(s, st)
            continue
        if e not in s.events():
            route = []          # hidden state differs from when the edge was recorded
            edges[k].pop(e, None)
            if not nodes[k] and path(k) is None and not hist:
                break
            continue
        got = s.fire(e, weight)
        steps += 1
        out.transitions += 1
        hist.append(e)
        new = s.state()
        check(s, st, e, new, hist)
        st = new
        k2 = enter(s, st)
        edges[k][e] = k2
        if route and False:
            pass
        k = k2
        if stop and stop():
            break
    else:
        complete = False
    return complete


def tree(make, check, out, depth, weight=None, first=None, cap=None):
    """Every event history of length <= depth from the initial state; each is executed from a fresh model.
    first: restrict to histories whose first event has this rank modulo (i, n) (to split work)."""
    leaves = 0
    stack = [()]
    # iterative deepening over prefixes: run prefix + "first available event" until depth, collecting siblings
    todo = [[]]
    while todo:
        prefix = todo.pop()
        s, hist = make(), []
        st = s.state()
        check(s, None, None, st, hist)
        for d in range(depth):
            ev = sorted(set(s.events()))
            if not ev:
                break
            if d < len(prefix):
                e = prefix[d]
                if e not in ev:
                    raise Violation("replaying the same history gives other available events", prefix=prefix, at=d, available=ev)
            else:
                pick = ev
                if d == 0 and first is not None:
                    pick = [x for i, x in enumerate(ev) if i % first[1] == first[0]]
                    if not pick:
                        break
                e = pick[0]
                for x in pick[1:]:
                    todo.append(hist + [x])
            s.fire(e, weight)
            out.transitions += 1
            hist = hist + [e]
            new = s.state()
            check(s, st, e, new, hist)
            st = new
        leaves += 1
        out.states += 1
        if cap and leaves >= cap:
            return False
    out.traces += leaves
    return True
