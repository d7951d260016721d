"""Registry of contract units.  Contract files are written in the common subset
of Python 2 and 3: the same text is executed by the verifier (symbolically, on
every path and for all inputs) and by the runtime checker (under the
interpreter that runs privcount, on concrete inputs)."""

UNITS = []


def text(E, args):
    """Contract of the log formatting helpers (P24): they return a string and have no effect."""
    return E.str('text', inp=False)


LOG_TEXT = dict(('log.' + f, text) for f in (
    'summarise_string', 'summarise_list', 'format_period', 'format_datetime', 'format_epoch', 'format_time', 'format_interval',
    'format_elapsed_time_wait', 'format_elapsed_time_since', 'format_delay_time_wait', 'format_delay_time_until',
    'format_interval_time_between', 'format_last_event_time_since', 'format_bytes'))


class Unit(object):
    def __init__(self, prop, name, fn, targets, contracts, loop_hints, expects, cases, opts):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.contracts, self.loop_hints = contracts, loop_hints
        self.expects, self.cases, self.opts = expects, cases, opts


def unit(prop, name, targets, contracts=None, loop_hints=None, expects=(), cases=300, mods=None, static=True,
         dynamic=True, max_paths=4000, time=100, **kw):
    """prop: property id; targets: functions whose bodies the unit puts under
    contract; contracts: assumed contracts of callees / dependencies;
    expects: obligations that must be generated and reachable."""
    def deco(fn):
        o = dict(kw)
        if not [t for t in targets if t.startswith('log.')]:
            o['summaries'] = dict(LOG_TEXT, **dict(kw.get('summaries') or {}))
        o.update({'mods': mods, 'static': static, 'dynamic': dynamic, 'max_paths': max_paths, 'time': time})
        UNITS.append(Unit(prop, name, fn, list(targets), dict(contracts or {}), dict(loop_hints or {}),
                          list(expects), cases, o))
        return fn
    return deco
