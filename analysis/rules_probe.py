"""The probe state machine (probe.rs).

What the timer and data rules look through (starting a round, its outcome) is
judged there as well, on the probe's fields: a missing method is not an alarm."""
import re
from core import *
from rules_members import nosuch
from proto import wrapped1

FIELDS = ('direct', 'indirect', 'probe_number', 'direct_ack_ok', 'indirect_ack_count', 'reached_indirect_probe_stage')
SOME, NUM = mk('fld', mk('as', S('direct'), 'Some'), '0'), S('probe_number')


def same(c, E, fin, but, why):
    for f in FIELDS:
        if f not in but:
            c.ob(get(fin, f) is S(f), E, why + ': ' + f + ' unchanged')


def cleared(c, E, fin, skip=()):
    if 'direct' not in skip:
        c.ob(vname(get(fin, 'direct')) == 'None', E, 'no member is being probed')
    c.ob(get(fin, 'indirect').op == 'vempty', E, 'no indirect helper is remembered')
    c.ob(get(fin, 'direct_ack_ok') is FALSE, E, 'no direct ack is remembered')
    c.ob(get(fin, 'indirect_ack_count') is integer(0), E, 'no indirect ack is remembered')
    c.ob(get(fin, 'reached_indirect_probe_stage') is FALSE, E, 'the indirect stage is not reached')


@rule('R.probe_start', 'C02 C03 C04 C12 C13',
      'Probe::start begins a round with fresh evidence and a new number; Probe::clear forgets the round but never the number', floor=10)
def start(c):
    for p in c.run('Probe::new', 'leaf'):
        r = p.ret
        E = 'Probe::new'
        c.ob(vname(get(r, 'direct')) == 'None', E, 'no member is being probed')
        c.ob(get(r, 'direct_ack_ok') is FALSE and get(r, 'indirect_ack_count') is integer(0) and get(r, 'reached_indirect_probe_stage') is FALSE, E, 'no evidence')
        c.ob(get(r, 'probe_number').op == 'int', E, 'a fixed first number')
    E = 'Probe::clear'
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        cleared(c, E, fin)
        c.ob(get(fin, 'probe_number') is NUM, E, 'late acks keep being told apart: the number is kept')
    E = 'Probe::start'
    target = c.param(E, 1) if c.has(E) else None
    for p in c.run(E, 'leaf') if c.has(E) else ():
        fin = c.final(p)
        d = get(fin, 'direct')
        c.ob(vname(d) == 'Some' and d.a[3][0] is target, E, 'the given member is being probed')
        cleared(c, E, fin, ('direct',))
        n = get(fin, 'probe_number')
        c.ob(n is p.ret, E, 'returns the number of the round')
        c.ob(wrapped1(n, NUM, p.f), E, 'the round has a new number (wrapping)')
    E = 'Probe::probe_number'
    for p in c.run(E, 'leaf'):
        c.ob(p.ret is NUM, E, 'reports the number of the round')


@rule('R.probe_eval', 'C02 C03 C04 C12 C13',
      'a round succeeded iff a direct or indirect ack was recorded; a failed round hands out the probed member once; a round is valid iff none is running or its indirect stage ran', floor=2)
def evalr(c):
    succ = [c.d_bool(S('direct_ack_ok')), c.d_rel(S('indirect_ack_count'), integer(0))]
    E = 'Probe::succeeded'
    for p in c.run(E, 'leaf') if c.has(E) else ():
        for (d, n), fs in c.tablef(p.f, succ):
            if n == '<':
                continue
            c.ob(c.always(fs, p.ret) is (d or n == '>'), E, 'direct ack %s, indirect acks %s 0' % (d, n))
    E = 'Probe::take_failed'
    for p in c.run(E, 'leaf') if c.has(E) else ():
        fin = c.final(p)
        for (d, n), fs in c.tablef(p.f, succ):
            if n == '<':
                continue
            if d or n == '>':
                c.ob(vname(p.ret) == 'None' and get(fin, 'direct') is S('direct'), E, 'a succeeded round has no failed member')
            else:
                c.ob(p.ret is S('direct') or (vname(p.ret) == 'Some' and p.ret.a[3][0] is SOME) or
                     (vname(p.ret) == 'None' and c.always(fs, c.isv(S('direct'), 'Option', 'None')) is True), E, 'a failed round yields the probed member')
                c.ob(vname(get(fin, 'direct')) == 'None' or c.always(fs, c.isv(S('direct'), 'Option', 'None')) is True, E, 'a failed round is reported once')
        same(c, E, fin, ('direct', 'indirect', 'direct_ack_ok', 'indirect_ack_count', 'reached_indirect_probe_stage'), 'reporting')
    E = 'Probe::validate'
    for p in c.run(E, 'leaf') if c.has(E) else ():
        for (v, r), fs in c.tablef(p.f, [c.d_var(S('direct'), 'Option'), c.d_bool(S('reached_indirect_probe_stage'))]):
            c.ob(c.always(fs, p.ret) is (v == 'None' or r), E, 'probing: %s, indirect stage reached: %s' % (v, r))
    E = 'Probe::is_probing'
    ID = c.param(E, 1) if c.has(E) else None
    for p in c.run(E, 'leaf') if c.has(E) else ():
        for (v, e), fs in c.tablef(p.f, [c.d_var(S('direct'), 'Option'), c.d_bool(c.eq(ID, mk('fld', SOME, 'id')))]):
            c.ob(c.always(fs, p.ret) is (v == 'Some' and e), E, 'probing: %s, same identity: %s' % (v, e))
    E = 'Probe::mark_indirect_probe_stage_reached'
    for p in c.run(E, 'leaf') if c.has(E) else ():
        fin = c.final(p)
        c.ob(get(fin, 'reached_indirect_probe_stage') is TRUE, E, 'records that the stage was reached')
        same(c, E, fin, ('reached_indirect_probe_stage',), 'bookkeeping')


@rule('R.probe_ack', 'C03 C04 C12',
      'an ack counts iff it carries the current number and comes from the probed member (direct) or a helper asked in this round, each at most once (indirect)', floor=14)
def ack(c):
    E = 'Probe::receive_ack'
    frm, no = from_and_number(c, E)
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        same(c, E, fin, ('direct_ack_ok',), 'ack')
        yes = said_yes(c, E, p.ret)
        for (v, e, n), fs in c.tablef(p.f, [c.d_var(S('direct'), 'Option'), c.d_bool(c.eq(frm, mk('fld', SOME, 'id'))), c.d_rel(no, NUM)]):
            good = v == 'Some' and e and n == '='
            w = 'probing: %s, from the probed member: %s, number %s current' % (v, e, n)
            c.ob(c.always(fs, yes) is good, E, w + ': accepted iff genuine')
            c.ob(becomes(c, fs, get(fin, 'direct_ack_ok'), True if good else S('direct_ack_ok')), E, w + ': recorded iff genuine')
    E = 'Probe::receive_indirect_ack'
    frm, no = from_and_number(c, E)
    for p in c.run(E, 'leaf'):
        fin = c.final(p)
        same(c, E, fin, ('indirect', 'indirect_ack_count'), 'forwarded ack')
        num = c.ev(p, rel(no, NUM, 2))
        ind = get(fin, 'indirect')
        got = c.ev(p, said_yes(c, E, p.ret))
        if got is True:
            c.ob(num is True, E, 'accepted only with the current number')
            hit = None
            if ind.op in ('removed', 'retained'):
                hit = ind.a[1] if ind.op == 'removed' else None
            c.ob(hit is not None and ind.a[0] is S('indirect') and c.ev(p, c.eq(frm, mk('elem', S('indirect'), hit))) is True, E, 'accepted only from a member asked in this round, who is then used up')
            c.ob(counted1(get(fin, 'indirect_ack_count')), E, 'accepted: recorded as evidence')
        elif got is False:
            ex = nosuch(c, p, S('indirect'), lambda ph: [(c.eq(frm, ph), True)])
            c.ob(num is False or ex, E, 'refused only for another number or from somebody not asked')
            c.ob(ind is S('indirect') and get(fin, 'indirect_ack_count') is S('indirect_ack_count'), E, 'refused: nothing recorded')
        else:
            c.ob(False, E, 'reports whether the ack was accepted')
    E = 'Probe::expect_indirect_ack'
    frm = c.param(E, 1) if c.has(E) else None
    for p in c.run(E, 'leaf') if c.has(E) else ():
        fin = c.final(p)
        same(c, E, fin, ('indirect',), 'asking')
        ind = get(fin, 'indirect')
        c.ob(ind.op == 'push' and ind.a[0] is S('indirect') and ind.a[1] is frm, E, 'exactly the member asked is remembered')


def from_and_number(c, E):
    """the two arguments of an ack, whatever their order"""
    c.param(E, 1)
    tys = c.prog('default').find(E)[0]['inputs'][1:]
    no = [i for i, t in enumerate(tys) if t == 'u8']
    if len(tys) != 2 or len(no) != 1:
        raise Missing('%s: takes a sender and a number' % E)
    return c.param(E, 2 - no[0]), c.param(E, 1 + no[0])


def said_yes(c, E, v):
    """accepted, be it told as a bool, an Option or a Result"""
    out = c.prog('default').find(E)[0]['output']
    for ty, name in (('Option', 'Some'), ('Result', 'Ok')):
        if re.match(r'core::\w+::%s<' % ty, out):
            return c.isv(v, ty, name)
    return v


def becomes(c, fs, v, want):
    """under the facts the boolean v has the truth value want (a constant or a term)"""
    if want is True or want is False:
        return c.always(fs, v) is want
    if v is want:
        return True
    return all(c.always([g for f in fs for g in c.consistent(f, [(want, b)])], v) in (b, None) and
               all(c.ev(g, v) is b for f in fs for g in c.consistent(f, [(want, b)])) for b in (True, False))


def counted1(v):
    if v.op in ('sat', 'wrap'):
        v = v.a[0]
    return v is add(S('indirect_ack_count'), integer(1))
