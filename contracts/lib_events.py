"""Expectations on the counter increments of one event."""
from c_stream import single

_events = {}


def events_of(E, name):
    """The events the counter table lists for a counter (None: no such counter)."""
    if not _events:
        t = E.fn('counter.PRIVCOUNT_COUNTER_EVENTS')
        for n, events in E.iter(E.m(t, 'items').value):
            _events[str(n)] = frozenset(E.iter(events))
    return _events.get(name)


def compare(E, want, event):
    """Exactly the wanted increments of known counters, each once, and each requested from Tor."""
    got, names = {}, set(w[0] for w in want)
    for n, b, i in E.logged_known('inc'):
        if n in names or events_of(E, n) is not None:
            got.setdefault(n, []).append((b, i))
    want = [w for w in want if events_of(E, w[0]) is not None]
    names = set(w[0] for w in want)
    missed = sorted(names - set(got))
    extra = sorted(n for n in got if n not in names and events_of(E, n) is not None)
    E.prove('each-once', not missed and not extra and all(len(got[n]) == 1 for n in names) and len(want) == len(names), (missed[:5], extra[:5]))
    E.prove('requested', all(event in events_of(E, n) for n in names), [n for n in names if event not in events_of(E, n)][:5])
    for n, b, i in want:
        E.prove('right-amounts', E.And(E.eq(got[n][0][1], i), single(E, got[n][0][0]) if isinstance(b, str) else E.eq(got[n][0][0], b)), n)
