"""From the transitions TLC wrote out (spec/Graph.tla) to behaviours that cover them.

Two steps that look the same to the node that takes them (same state of the node, same
call with the same arguments) need to be carried out in the real code only once."""
import collections


class Graph:
    def __init__(self):
        self.root = None
        self.out = collections.defaultdict(list)     # state -> [(local, act, next)]
        self.edges = 0
        self.locals = set()

    def add(self, line):
        """One line of TLC's output."""
        f = line.strip().strip('"').split("|", 4)
        if f[0] == "H0":
            self.root = f[1]
        else:
            self.out[f[1]].append((f[2], f[4], f[3]))
            self.locals.add(f[2])
            self.edges += 1

    def walks(self, limit=None, longest=60):
        """Behaviours from the initial state that together contain every local step."""
        parent = {self.root: None}
        order = []
        first = {}            # local step -> (source, edge) closest to the start
        q = collections.deque([self.root])
        while q:
            s = q.popleft()
            for e in self.out.get(s, ()):
                if e[0] not in first:
                    first[e[0]] = (s, e)
                    order.append(e[0])
                if e[2] not in parent:
                    parent[e[2]] = (s, e)
                    q.append(e[2])
        left = set(first)
        res, calls = [], 0
        for loc in reversed(order):
            if loc not in left:
                continue
            s, e = first[loc]
            path = [e]
            while parent[s] is not None:
                s, pe = parent[s]
                path.append(pe)
            path.reverse()
            cur = path[-1][2]
            left.difference_update(x[0] for x in path)
            # go on as long as there is something new
            while len(path) < longest:
                nxt = [x for x in self.out.get(cur, ()) if x[0] in left]
                if not nxt:
                    # look two steps ahead
                    nxt = [x for x in self.out.get(cur, ()) if any(y[0] in left for y in self.out.get(x[2], ()))]
                if not nxt:
                    break
                path.append(nxt[0])
                left.discard(nxt[0][0])
                cur = nxt[0][2]
            res.append([x[1] for x in path])
            calls += len(path)
            if limit and calls >= limit:
                break
        return res, len(self.locals) - len(left)


def scene(c):
    """Driver arguments for the constants of a model."""
    ids = lambda s: ".".join(s.strip("{}").replace(" ", "").split(","))      # noqa: E731
    b = lambda s: "1" if s == "TRUE" else "0"      # noqa: E731
    return ["ids=" + ids(c["Ids"]), "v=" + ids(c["Voters0"]), "l=" + ids(c["Learners0"]), "o=" + ids(c["Outgoing0"]),
            "al=" + b(c["AutoLeave0"]), "atomic=" + b(c["Atomic"]), "cq=" + b(c["CheckQuorum_"]), "pv=" + b(c["PreVote"]),
            "lease=" + b(c["Lease"]), "infl=" + c["MaxInflight"], "maxmsg=" + c["MaxMsgSize"], "maxcomm=" + c["MaxComm"]]
