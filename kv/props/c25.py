ID = "C25"
RULE = ("1-4 member names whose processes start, join, leave, crash, lose connections (also past expiry), "
        "and come back under the same name while the old session lingers, is just expiring or ends in the "
        "middle of their return, several at once under generated schedules; once at rest the party "
        "consists of exactly the names whose latest process joined and has not left, died or lost its "
        "session since, and every live watcher has been told exactly that. Non-trivial: a process came "
        "back under its name, or two names changed at the same time.")
QUICK, THOROUGH = 1200, 15000

from kv import grouping
from kv.engine import check, one_of

PATH = "/groups/party"


def strategy():
    from hypothesis import strategies as st
    i = st.integers(0, 3)
    action = one_of(
        st.tuples(st.just("join"), i), st.tuples(st.just("join"), i), st.tuples(st.just("join"), i),
        st.tuples(st.just("leave"), i), st.tuples(st.just("crash"), i),
        st.tuples(st.just("return"), i),
        # the old session ends right after so many operations of the new process
        st.tuples(st.just("return"), i, st.integers(0, 7)),
        st.tuples(st.just("drop"), i, st.sampled_from([0.01, 2.0, 10.5, 30.0])))
    pause = st.sampled_from([0, 0.01, 9.0, 10.0, 10.0, 60.0])
    return st.tuples(st.lists(st.tuples(st.lists(action, min_size=1, max_size=3), pause),
                              min_size=1, max_size=8), grouping.st_schedule())


class Process(object):
    def __init__(self, w, name):
        from kazoo.client import KazooClient
        from kiel.zookeeper import Party
        self.w = w
        self.seen = []
        self.client = KazooClient(hosts="zk")
        # whatever a callback returns is of no interest to anybody
        self.party = Party(self.client, name, PATH, lambda names: (self.seen.append(names), False)[1])
        self.alive = True
        self.joined = False         # what the last completed call asked for
        self.session = None         # the session it joined with

    def begin(self):
        self.client.start()
        self.party.start()

    def join(self):
        self.party.join()
        self.joined, self.session = True, self.client.client_id

    def leave(self):
        self.party.leave()
        self.joined = False


def run(case, info):
    from kazoo.exceptions import KazooException
    steps, schedule = case
    with grouping.zk_world(schedule) as w:
        processes = {}
        watchers = []
        hooks = {}

        def hook(client, name, path, when):
            if when == "after" and client in hooks:
                if hooks[client][0] == 0:
                    w.end_session(hooks.pop(client)[1])
                else:
                    hooks[client][0] -= 1

        w.op_hook = hook
        for actions, pause in steps:
            todo, names = [], set()
            for a in actions:
                name = grouping.NAMES[a[1]]
                if name in names:
                    continue
                p = processes.get(name)
                call = None
                if a[0] in ("join", "return"):
                    if p is None or not p.alive:
                        ends = None
                        if p is not None:
                            if a[2:] and p.client.client_id:
                                ends = p.client.client_id[0]
                            info.nontrivial = True
                            info.label("came back")
                        p = processes[name] = Process(w, name)
                        watchers.append(p)
                        if ends is not None:
                            hooks[p.client] = [a[2], ends]
                            info.label("old session ends meanwhile")
                        call = lambda p=p: (p.begin(), p.join())
                    elif a[0] == "join":
                        call = p.join
                elif p is None or not p.alive:
                    continue
                elif a[0] == "leave":
                    call = p.leave
                elif a[0] == "crash":
                    p.alive = False
                    call = lambda p=p: w.crash(p.client)
                elif a[0] == "drop":
                    call = lambda p=p, outage=a[2]: w.drop(p.client, outage)
                if call is not None:
                    names.add(name)
                    todo.append((a[0], p, call))
            for (kind, p, _), t in zip(todo, grouping.together(
                    w, [(k, c) for k, _, c in todo], "join() / leave()")):
                if t.error is not None:
                    if not isinstance(t.error, KazooException) or not any(
                            x[0] == "drop" for s in steps for x in s[0]):
                        raise t.error
                    p.alive = False     # what a failed call did is open: done with it
                    w.crash(p.client)
                info.label(kind)
            if len(todo) > 1:
                info.nontrivial = True
            if pause:
                grouping.settle(w, pause)
        grouping.settle(w, 120.0)
        expected = sorted(name for name, p in processes.items() if p.alive and p.joined and
                          p.session == p.client.client_id)
        have = w.children(PATH)
        check((have or []) == expected, "the party should consist of %r, it is %r", expected, have)
        for name in expected:
            owner = w.find(PATH + "/" + name).owner
            check(owner == processes[name].client.client_id[0],
                  "%s's membership does not depend on its own session", name)
        for p in watchers:
            if p.alive:
                check(p.seen and sorted(p.seen[-1]) == expected,
                      "a member was last told of %r, the party is %r", p.seen[-1:], expected)
        bad = grouping.unexpected(w.errors)
        check(not bad, "a callback failed: %r", bad)
