"""Driver of the format matcher: runs both modes over the analysis of parse_class."""
from lin import Lin, const, var
from values import T, mkT
from interp import Infeasible, AnalysisError
from checks import match, jvms
from checks.match import Frame, Matcher, same


def ok_mode(A, m):
    E = A.E
    nodes, value = jvms.NTS['class']
    for st, v in A.oks:
        m.ctx = ['class']
        m.curfn = (A.fn_parse, 0)
        n = 0
        ok = v.a[2][0] if isinstance(v, T) and v.tag == 'adt' and E.tname(v.a[0]).endswith('Result') else v
        f = Frame({}, const(0), st.copy(), 0)
        for r in m.seq(nodes, f):
            n += 1
            m.cmp(value, r, ok, 'ClassFile')
        m.okpaths = getattr(m, 'okpaths', 0) + n
    m.run_recs()
    return m


def err_frames(m, rec, rfid=None):
    """the ways a well-formed input can reach the place where an error is created (the spec's conditions are assumed)"""
    A, E = m.A, m.E
    m.mode = 'err'
    m.ctx = []
    st = rec.state.copy()
    if rfid is None:
        nodes, _ = jvms.NTS['class']
        f = Frame({}, const(0), st, 0)
    else:
        g = E.recres[rfid]
        nt = m.recbind.get(rfid)
        if nt is None:
            return None
        nodes, _ = jvms.NTS[nt]
        if not assume_limits(m, g, nt, st):
            return []
        f = Frame({}, g.cur, st, len(g.entry.trail))
    out = []
    try:
        for r in m.seq(nodes, f):
            out.append(r)
            if len(out) >= 60:
                break
    except Infeasible:
        pass
    return out


def assume_limits(m, g, nt, st):
    lim = jvms.LIMITS.get(nt)
    for a in g.args:
        if isinstance(a, Lin) and lim is not None and not st.st.strict('ge', -a + lim):
            return False
    return True


def err_mode(A, m):
    res = []
    m.errs = 0
    for rec in A.E.errlog:
        m.errs += 1
        r = err_frames(m, rec)
        if r is None or r:
            res.append((rec, r))
    for rfid, g in A.E.recres.items():
        for rec in g.errs:
            m.errs += 1
            r = err_frames(m, rec, rfid)
            if r is None or r:
                res.append((rec, r))
    return res
