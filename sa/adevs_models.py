"""How the rules read the library's own interfaces."""
from engine import *

CONST = {'adevs_inf': ('c', 'inf'), 'adevs_zero': ('c', 'zero'),
         'adevs_sentinel': ('c', 'sentinel'), 'adevs_epsilon': ('c', 'eps')}


def m_const(name):
    def h(eng, n, st):
        return [(st, CONST[name])]
    return h


def m_mealy(eng, n, st):
    out = []
    for s, p in eng.objptr(n, st):
        out += eng.isa(s, p, 'adevs::MealyAtomic') if not s.out else [(s, UNDEF)]
    return out


def m_route(eng, n, st):
    """Graph::route(pin, result): appends the receivers of the pin (rule G02)."""
    out = []
    for s, g in eng.objptr(n, st):
        for s1, pin in (eng.ev(n['args'][0], s) if not s.out else [(s, UNDEF)]):
            for s2, l in (eng.lval(n['args'][1], s1) if not s1.out else [(s1, UNDEF)]):
                if s2.out:
                    out.append((s2, UNDEF))
                    continue
                C = eng.read(s2, l)
                if C[0] in ('undef', 'dflt'):
                    C = EMPTY
                R = ('filled', ap('route', pin))
                eng.ctypes.setdefault(l, eng.p.t(n['args'][1]['t']))
                s2.ev(Ev('call', name='route', cls='adevs::Graph', obj=g, args=(Arg((pin, None, None)), Arg((C, l, None))), line=n.get('l'), fn=s2.fr.fn))
                eng.write(s2, l, R if C == EMPTY else ('app', R, C), None, ev=False)
                out.append((s2, UNDEF))
    return out


def sched_epoch(st):
    return st.ep.get('#sched', 0)


def m_minprio(eng, n, st):
    return [(s, ap('minPriority', o, ('str', repr(sched_epoch(s)))) if not s.out else UNDEF) for s, o in eng.objptr(n, st)]


def base_models():
    m = {('', k): m_const(k) for k in CONST}
    m[('adevs::Atomic', 'isMealyAtomic')] = m_mealy
    m[('adevs::MealyAtomic', 'isMealyAtomic')] = m_mealy
    return m


def plain():
    return Config(models=base_models(), time_cls={'adevs::sd_time'})


def m_graphfield(name):
    def h(eng, n, st):
        out = []
        for s, g in eng.objptr(n, st):
            l = ('f', g, name)
            if not s.out:
                eng.ctypes[l] = eng.p.t(n['t'])
            out.append((s, ('LOC', l) if not s.out else UNDEF))
        return out
    return h


GRAPH_OPS = ('add_atomic', 'remove_atomic', 'connect', 'disconnect', 'remove_pin', 'set_provisional', 'get_provisional')
SCHED_OPS = ('schedule', 'visitImminent', 'getImminent')


def sim():
    m = base_models()
    m[('adevs::Graph', 'route')] = m_route
    m[('adevs::Schedule', 'minPriority')] = m_minprio
    m[('adevs::Graph', 'get_atomics')] = m_graphfield('#atomics')
    m[('adevs::Graph', 'get_pending')] = m_graphfield('#pending')
    op = {('adevs::Graph', x) for x in GRAPH_OPS} | {('adevs::Schedule', x) for x in SCHED_OPS}
    op |= {('adevs::Coupled', 'assign_to_graph')}
    return Config(models=m, opaque=op, time_cls={'adevs::sd_time', 'adevs::pin_t'},
                  bumps={('adevs::Schedule', 'schedule'): '#sched', ('adevs::Graph', 'add_atomic'): '#atomics',
                         ('adevs::Graph', 'remove_atomic'): '#atomics', ('adevs::Coupled', 'assign_to_graph'): '#atomics'},
                  keepargs={'inputEvent', 'outputEvent', 'stateChange'})


def graph():
    return Config(models=base_models(), time_cls={'adevs::sd_time', 'adevs::pin_t'})


def coupled():
    return Config(models=base_models(), time_cls={'adevs::sd_time', 'adevs::pin_t'},
                  opaque={('adevs::Graph', x) for x in GRAPH_OPS} | {('adevs::Coupled', 'assign_to_graph'), ('adevs::Coupled', 'remove_from_graph')})


def time():
    return Config(models={}, time_cls=set())


def solver():
    return Config(models={}, time_cls=set(), opaque={(c, 'trial_step') for c in ('adevs::rk_45', 'adevs::corrected_euler')} | {(c, 'integrate') for c in ('adevs::rk_45', 'adevs::corrected_euler', 'adevs::trap', 'adevs::ode_solver')})


CONFIGS = {'solver': solver, 'plain': plain, 'time': time, 'sim': sim, 'graph': graph, 'coupled': coupled}
