"""Setup: nothing is compiled; prove that the machinery works in this sandbox."""


def main():
    from mc import core, sim
    # the scheduler explores both orders of two messages and detects a deadlock
    seen = set()

    def run(ch):
        s = sim.Sim(ch)
        log = []
        c = [sim.Channel(s, "a"), sim.Channel(s, "b")]
        s.spawn("x", lambda: (c[0].put(1), log.append("x")))
        s.spawn("y", lambda: (c[1].put(1), log.append("y")))
        s.spawn("z", lambda: (c[0].get(), c[1].get()))
        s.run()
        seen.add(tuple(log))
    core.explore_choices(run, 2, lambda ch, r: None)
    assert seen == {("x", "y"), ("y", "x")}, seen
    s = sim.Sim()
    c = sim.Channel(s, "a")
    s.spawn("x", c.get)
    try:
        s.run()
    except sim.Deadlock:
        pass
    else:
        raise AssertionError("deadlock not found")
    import numpy
    import google.protobuf
    import Cryptodome
    print("selftest ok: numpy %s, protobuf %s" % (numpy.__version__, google.protobuf.__version__))
    return 0
