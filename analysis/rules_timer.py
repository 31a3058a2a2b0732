"""Foca::handle_timer: staleness, reactions and continuation of every timer."""
from core import *
from proto import *
from rules_data import errname, errval, result, encode_failed
from rules_members import exact, nosuch

E = 'Foca::handle_timer'
LOOPS = {'PeriodicAnnounce': ('periodic_announce', 'Announce'),
         'PeriodicAnnounceDown': ('periodic_announce_to_down_members', 'Announce'),
         'PeriodicGossip': ('periodic_gossip', 'Gossip')}


def timers(c, *only):
    """(path, variant, facts, payload term) for every path and timer kind"""
    t = c.param(E, 1)
    seen = set()
    for p in c.run(E, 'foca'):
        for (v,), fs in c.tablef(p.f, [c.d_var(t, 'Timer')]):
            if not only or v in only:
                seen.add(v)
                for f in fs:
                    yield p, v, f, mk('as', t, v)
    for v in only:
        if v not in seen:
            c.ob(False, E, 'no path handles ' + v)


def token_of(pl, v):
    return mk('fld', pl, 'token' if v in ('SendIndirectProbe', 'ChangeSuspectToDown') else '0')


def untouched(c, p, label, site=None, but=()):
    """nothing but scratch space is written"""
    fin = c.final(p)
    for f in own_fields(c):
        if f not in SCRATCH and f not in but:
            c.ob(get(fin, f) is S(f), E, label + ': ' + f + ' is left alone', site)


def nothing(c, p, label, ret='Ok', f=None):
    eff = effects(c, p)
    expect(c, E, label, eff, [], None, p)
    c.ob(errname(p) == ret, E, label + ': ' + ('ignored without an error' if ret == 'Ok' else 'refused with ' + ret))
    untouched(c, p, label)


@rule('T.stale', 'C02 C05 C08 C10 C11 C12 C13 C17',
      'a probe, suspicion or periodic timer of an older epoch does nothing at all', floor=50)
def stale(c):
    for p, v, f, pl in timers(c, 'SendIndirectProbe', 'ChangeSuspectToDown', 'ProbeRandomMember', *LOOPS):
        for (cur_,), fs in c.tablef(f, [c.d_bool(rel(token_of(pl, v), S('timer_token'), 2))]):
            if not cur_:
                nothing(c, p, v + ' of another epoch')


@rule('T.forget', 'C01 C03 C09 C11 C17', 'RemoveDown forgets exactly the named member, if it is Down, and does nothing else, in any epoch', floor=8)
def forget(c):
    for p, v, f, pl in timers(c, 'RemoveDown'):
        label = 'RemoveDown'
        eff = effects(c, p)
        expect(c, E, label, eff, [w_call('the named member is removed if it is down', 'remove_if_down', mk('fld', pl, '0'), S('members'))], None, p)
        c.ob(errname(p) == 'Ok', E, label + ': succeeds')
        untouched(c, p, label, but=('members',))
        c.ob(kept(c, p, 'members'), E, label + ': no other member is touched')


@rule('T.loops', 'C02 C04 C05 C08 C13 C15 C19',
      'a periodic timer of the current epoch resubmits itself with its configured frequency whatever else happens (errors included) and sends its message to a bounded choice of the right members; '
      'disabled or not connected: nothing', floor=80)
def loops(c):
    for p, v, f, pl in timers(c, *LOOPS):
        field, msg = LOOPS[v]
        o = S('config', field)
        par = payload(o, 'Some')
        connected = c.isv(S('connection_state'), 'ConnectionState', 'Connected')
        dims = [c.d_bool(rel(token_of(pl, v), S('timer_token'), 2)), c.d_bool(connected), c.d_var(o, 'Option')]
        if v == 'PeriodicGossip':
            dims += [[('empty', [(rel(app('len', S(q, 'flip')), integer(0), 2), True)]), ('pending', [(rel(app('len', S(q, 'flip')), integer(0), 4), True)])] for q in ('updates', 'custom_broadcasts')]
        for combo, fs in c.tablef(f, dims):
            if not combo[0]:
                continue
            if not combo[1] or combo[2] == 'None':
                nothing(c, p, v + (', not connected' if not combo[1] else ', disabled'))
                continue
            idle = len(combo) == 5 and combo[3] == combo[4] == 'empty'
            label = v + (', nothing to gossip' if idle else '')
            eff = effects(c, p)
            wants = [w_timer('is resubmitted, in its epoch, after its own frequency', v, (S('timer_token'),), get(par, 'frequency'))]
            fan = w_fan('its message is sent', lambda x: True)
            if not idle:
                wants.append(fan)
            ok = expect(c, E, label, eff, wants, None, p, fs[0])
            if not idle and fan.hit is not None:
                down = v == 'PeriodicAnnounceDown'

                def conj(ph):
                    d = (c.isv(get(ph, 'state'), 'State', 'Down'), down)
                    return [d] + ([(c.eq(app('addr', get(ph, 'id')), app('addr', S('identity'))), False)] if down else [])
                with Known(c, fs[0]):
                    fan_ok(c, E, label, p, fan.hit, nz(get(par, 'num_members')), conj, lambda m, ev: variant(m, msg))
                    finished(c, E, label, p, fan.hit)
            elif errname(p) != 'Ok':
                c.ob(False, E, label + ': succeeds')
            untouched(c, p, label, but=('updates', 'custom_broadcasts'))


def finished(c, E, label, p, fan):
    """the fan-out ends with its last member or with the failure of a send"""
    if fan.tail is not None:
        r = p.ret
        c.ob(vname(r) == 'Err' and errval(p) is mk('res', evid_of(fan.tail), 'err'), E, label + ': only a failure to encode stops the sending', c.site(p, fan.tail))
    else:
        c.ob(vname(p.ret) == 'Ok', E, label + ': succeeds', c.site(p, fan.choose))
        c.ob(exhausted(c, p, fan), E, label + ': every chosen member is sent the message', c.site(p, fan.choose))


def found(c, p, ident):
    """does an active member with this identity exist, as far as the path says"""
    L = S('members', 'inner')
    es = {x for k in p.f.d for t in k[1:] if isinstance(t, T) for x in subterms(t) if x.op == 'elem' and x.a[0] is L}
    for e in es:
        if c.ev(p, c.eq(ident, get(e, 'id'))) is True:
            d = c.ev(p, c.isv(get(e, 'state'), 'State', 'Down'))
            if d is not None:
                return 'no' if d else 'yes'
    if nosuch(c, p, L, lambda ph: [(c.eq(ident, get(ph, 'id')), True), (c.isv(get(ph, 'state'), 'State', 'Down'), False)]):
        return 'no'
    return None


@rule('T.indirect', 'C02 C03 C04 C08 C12 C13 C17 C18 C19',
      'the indirect probe starts iff the round is the current one, still unanswered and the member still active: PingReq(target, number) to at most num_indirect_probes other active members, '
      'each remembered as a helper; reaching this stage is always recorded', floor=60)
def indirect(c):
    D = S('probe', 'direct')
    T_ = payload(D, 'Some')
    for p, v, f, pl in timers(c, 'SendIndirectProbe'):
        who = mk('fld', pl, 'probed_id')
        dims = [c.d_bool(rel(token_of(pl, v), S('timer_token'), 2)), c.d_var(D, 'Option'), c.d_bool(c.eq(who, get(T_, 'id'))),
                c.d_bool(S('probe', 'direct_ack_ok')), [('none', [(rel(S('probe', 'indirect_ack_count'), integer(0), 3), True)]), ('some', [(rel(S('probe', 'indirect_ack_count'), integer(0), 4), True)])]]
        for (tok, some_, mine, acked, n), fs in c.tablef(f, dims):
            if not tok:
                continue
            eff = effects(c, p)
            why = 'no probe is running' if some_ == 'None' else 'another member is being probed' if not mine else 'already acked' if acked or n == 'some' else None
            if why is None:
                fd = found(c, p, who)
                if fd == 'no':
                    why = 'the member is not active anymore'
                elif fd is None:
                    c.ob(False, E, 'indirect probe: whether the member is still active is looked up')
                    continue
            fin = c.final(p)
            pr = get(fin, 'probe')
            c.ob(get(pr, 'reached_indirect_probe_stage') is TRUE, E, 'indirect probe: reaching this stage is recorded')
            for k in ('direct', 'probe_number', 'direct_ack_ok', 'indirect_ack_count'):
                c.ob(get(pr, k) is S('probe', k), E, 'indirect probe: probe.' + k + ' is left alone')
            untouched(c, p, 'indirect probe', but=('probe', 'updates', 'custom_broadcasts'))
            if why is not None:
                label = 'indirect probe, ' + why
                expect(c, E, label, eff, [], None, p)
                c.ob(errname(p) == 'Ok', E, label + ': succeeds')
                c.ob(get(pr, 'indirect') is S('probe', 'indirect'), E, label + ': nobody is asked')
                continue
            label = 'indirect probe'
            fan = w_fan('helpers are asked', lambda x: True)
            expect(c, E, label, eff, [fan], None, p, fs[0])
            if fan.hit is None:
                continue
            with Known(c, fs[0]):
                fan_ok(c, E, label, p, fan.hit, nz(S('config', 'num_indirect_probes')),
                       lambda ph: [(c.isv(get(ph, 'state'), 'State', 'Down'), False), (c.eq(get(ph, 'id'), who), False)],
                       lambda m, ev: variant(m, 'PingReq', ('target', who), ('probe_number', S('probe', 'probe_number'))))
                finished(c, E, label, p, fan.hit)
            remembered(c, p, fan.hit, pr, label)


def remembered(c, p, fan, pr, label):
    """every asked helper is expected to ack, nobody else"""
    lv = None
    if fan.loop is not None:
        for pair in fan.loop.a[3].a[0]:
            if pair.a[1] is S('probe', 'indirect'):
                lv = pair.a[0]
    if fan.segs:
        c.ob(lv is not None, E, label + ': every helper is remembered', c.site(p, fan.choose))
    for s in fan.segs:
        for ev in s.ev:
            if is_call(ev, 'send') and lv is not None:
                nv = dict(s.steps).get(lv)
                c.ob(nv is not None and nv.op == 'push' and nv.a[0] is lv and nv.a[1] is eargs(ev)[0], E, label + ': exactly the asked helper is remembered', c.site(p, ev))
    base = lv if lv is not None else S('probe', 'indirect')
    end = get(pr, 'indirect')
    if fan.tail is not None:
        c.ob(end is base or end.op == 'push' and end.a[0] is base and end.a[1] is eargs(fan.tail)[0], E, label + ': nobody else is remembered', c.site(p, fan.tail))
    else:
        c.ob(end is base, E, label + ': nobody else is remembered', c.site(p, fan.choose))


def after_apply(c, p, ev, eff, label, f):
    """the part of the wanted effects an apply outcome brings about"""
    seg = c.segs(p, False)[0]
    aborted = encode_failed(c, p)
    ws, o = post_wants(c, seg, ev, True, aborted)
    if o != 'unknown':
        rename_first(c, E, label, eff)
    return ws, o, aborted


@rule('T.suspicion', 'C01 C02 C03 C04 C05 C08 C09 C10 C11 C13 C15 C18 C19',
      'the suspicion timeout declares the member Down iff its record still is that identity at that incarnation, spreads and notifies the change, schedules the removal, adjusts the connection state '
      'and tells the member iff it was just declared down and notify_down_members is on', floor=200)
def suspicion(c):
    for p, v, f, pl in timers(c, 'ChangeSuspectToDown'):
        who, inc = mk('fld', pl, 'member_id'), mk('fld', pl, 'incarnation')
        for (tok,), fs in c.tablef(f, [c.d_bool(rel(token_of(pl, v), S('timer_token'), 2))]):
            if not tok:
                continue
            label = 'suspicion timeout'
            eff = effects(c, p)
            aps = [x for x in eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'apply_if', 'apply')]
            c.ob(len(aps) == 1 and is_call(aps[0], 'apply_if'), E, label + ': acts on an existing record, conditionally')
            if len(aps) != 1 or not is_call(aps[0], 'apply_if'):
                continue
            A = aps[0]
            site = c.site(p, A)
            U, cs, mem = eargs(A)[:3]
            c.ob(variant(U, 'Member', ('id', who), ('incarnation', inc)) and vname(get(U, 'state')) == 'Down', E, label + ': declares the member Down at the suspected incarnation', site)
            ph = cs.a[0]
            c.ob(exact(c, (ph, case_list(cs)), [(c.eq(get(ph, 'id'), who), True), (rel(get(ph, 'incarnation'), inc, 2), True)]), E,
                 label + ': exactly while the record is that identity at that incarnation', site)
            c.ob(mem is S('members'), E, label + ': acts on the current members', site)
            ws, o, aborted = after_apply(c, p, A, eff, label, f)
            w_a = Want('one conditional application', lambda x: x is A)
            fin = c.final(p)
            untouched(c, p, label, site, but=('members', 'updates', 'custom_broadcasts', 'connection_state', 'timer_token', 'probe'))
            if o is None:
                expect(c, E, label + ', unknown member', eff, [w_a], site, p)
                c.ob(errname(p) == 'Ok', E, label + ', unknown member: succeeds', site)
                untouched(c, p, label + ', unknown member', site, but=('members',))
                continue
            if o == 'unknown':
                c.ob(False, E, label + ': the outcome is looked at', site)
                continue
            act, okk, chg, conf = o
            label += ', declared down' if okk else ', not applied'
            if aborted:
                expect(c, E, label + ', encoding fails', eff, [w_a] + ws, site, p)
                c.ob(vname(p.ret) == 'Err', E, label + ', encoding fails: reported', site)
                continue
            active = get(mk('after', evid_of(A), S('members')), 'num_active')
            before = {'conn': S('connection_state'), 'token': S('timer_token'), 'probe': S('probe')}
            tell = S('config', 'notify_down_members')
            for (cn, n, td), fs2 in c.tablef(fs[0], conn_dims(c, before['conn'], active) + [c.d_bool(tell)]):
                g = fs2[0]
                what, wants, final = adjust_wants(c, g, before['conn'], active, S('timer_token'), S('config'))
                if not okk and get(fin, 'connection_state') is S('connection_state'):
                    # nothing changed, so nothing needs adjusting
                    what, wants, final = 'nothing changed', [], 'same'
                lab = '%s, %s' % (label, what)
                check_conn(c, E, lab, p, g, before, final or 'same', fin, site)
                wants = [w_a] + ws + (wants or [])
                sends = []
                if okk and td:
                    wants.append(w_send('the member is told with one TurnUndead', who, 'TurnUndead'))
                    sends = [wants[-1]]
                expect(c, E, lab + (', notify_down_members' if td else ''), eff, wants, site, p, g)
                result(c, E, lab, p, [w.hit for w in sends if w.hit is not None], None, site)


@rule('T.round', 'C02 C03 C04 C05 C08 C10 C11 C12 C13 C14 C15 C17 C18 C19',
      'each probe round of a connected instance resubmits itself, suspects the member that failed the previous complete round (and arms its timeout), and pings exactly the next member with a new number '
      'and arms the indirect stage; an incomplete previous round is dropped and reported', floor=300)
def round_(c):
    P = lambda n: S('probe', n)
    failed = payload(P('direct'), 'Some')
    for p, v, f, pl in timers(c, 'ProbeRandomMember'):
        dims = [c.d_bool(rel(token_of(pl, v), S('timer_token'), 2)), c.d_bool(c.isv(S('connection_state'), 'ConnectionState', 'Connected')),
                c.d_var(P('direct'), 'Option'), c.d_bool(P('reached_indirect_probe_stage')), c.d_bool(P('direct_ack_ok')),
                [('none', [(rel(P('indirect_ack_count'), integer(0), 3), True)]), ('some', [(rel(P('indirect_ack_count'), integer(0), 4), True)])]]
        for (tok, conn, some_, stage, acked, n), fs in c.tablef(f, dims):
            if not tok:
                continue
            if not conn:
                nothing(c, p, 'probe round while not connected', 'NotConnected')
                continue
            g = fs[0]
            incomplete = some_ == 'Some' and not stage
            fail = some_ == 'Some' and stage and not acked and n == 'none'
            label = 'probe round'
            eff = effects(c, p)
            fin = c.final(p)
            base = label + (' after an incomplete one' if incomplete else ' after a failed one' if fail else '')
            wants = [w_timer('the next round is submitted, in this epoch, after probe_period', v, (S('timer_token'),), S('config', 'probe_period'))]
            seg = c.segs(p, False)[0]
            untouched(c, p, base, but=('members', 'probe', 'updates', 'custom_broadcasts'))
            aborted = False
            if fail:
                aps = [x for x in eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'apply_if')]
                c.ob(len(aps) == 1, E, base + ': the failed member is suspected, on its existing record')
                if len(aps) != 1:
                    continue
                A = aps[0]
                site = c.site(p, A)
                U, cs, mem = eargs(A)[:3]
                with Known(c, g):
                    c.ob(variant(U, 'Member', ('id', get(failed, 'id')), ('incarnation', get(failed, 'incarnation'))) and vname(get(U, 'state')) == 'Suspect', E,
                         base + ': suspected at the incarnation it had when probed', site)
                ph = cs.a[0]
                c.ob(exact(c, (ph, case_list(cs)), [(c.eq(get(ph, 'id'), get(failed, 'id')), True)]), E, base + ': only if the record still is that identity', site)
                ws, o, aborted = after_apply(c, p, A, eff, base, g)
                if o == 'unknown':
                    c.ob(False, E, base + ': the outcome is looked at', site)
                    continue
                wants += [Want('one conditional application', lambda x: x is A)] + ws
                if o is not None:
                    act, okk, chg, conf = o
                    arm = w_timer('its suspicion timeout is armed, in this epoch, iff it is still active', 'ChangeSuspectToDown',
                                  (('member_id', get(failed, 'id')), ('incarnation', get(failed, 'incarnation')), ('token', S('timer_token'))), S('config', 'suspect_to_down_after'))
                    if act:
                        arm.optional = aborted or conf in ('Lost', 'FailedCondition')
                        wants.append(arm)
            if aborted:
                expect(c, E, base + ', encoding fails', eff, wants + [Want('', lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'next'), True)], None, p, g)
                c.ob(vname(p.ret) == 'Err', E, base + ', encoding fails: reported')
                continue
            nx = [x for x in eff if not isinstance(x, (Fan, tuple)) and is_call(x, 'next')]
            c.ob(len(nx) == 1, E, base + ': takes the next member once')
            if len(nx) != 1:
                continue
            N = nx[0]
            site = c.site(p, N)
            wants.append(Want('the next member is taken', lambda x: x is N))
            tgt = mk('res', evid_of(N))
            pr = get(fin, 'probe')
            err = vname(p.ret) == 'Err' and errval(p).op == 'res'
            started = get(pr, 'direct')
            if any(not isinstance(x, (Fan, tuple)) and is_call(x, 'send') for x in eff):
                no = get(pr, 'probe_number')
                c.ob(wrapped1(no, P('probe_number'), p.f), E, base + ': the round has a new number', site)
                c.ob(vname(started) == 'Some' and started.a[3][0] is tgt, E, base + ': the round probes the member taken', site)
                c.ob(get(pr, 'indirect').op == 'vempty' and get(pr, 'direct_ack_ok') is FALSE and get(pr, 'indirect_ack_count') is integer(0)
                     and get(pr, 'reached_indirect_probe_stage') is FALSE, E, base + ': starts without evidence', site)
                snd = w_send('exactly the member taken is pinged, with the number of the round', get(tgt, 'id'), 'Ping', no)
                arm = w_timer('the indirect stage is armed, in this epoch, after probe_rtt', 'SendIndirectProbe', (('probed_id', get(tgt, 'id')), ('token', S('timer_token'))), S('config', 'probe_rtt'))
                arm.optional = err
                wants += [snd, arm]
            else:
                # only without any member to take
                c.ob(took_none(c, p, N), E, base + ': a member that was taken is pinged', site)
                c.ob(not fail or vname(started) == 'None', E, base + ': the failed round is over', site)
                if incomplete:
                    probe_cleared(c, E, base, pr, S('probe'), site)
            expect(c, E, base, eff, wants, site, p, g)
            sends = [w.hit for w in wants if w.hit is not None and not isinstance(w.hit, (Fan, tuple)) and is_call(w.hit, 'send')]
            result(c, E, base, p, sends, None, site,
                   lambda: c.ob(errname(p) == ('IncompleteProbeCycle' if incomplete else 'Ok'), E, base + ': ' + ('reported as IncompleteProbeCycle' if incomplete else 'succeeds'), site))


def took_none(c, p, ev):
    return p.f.d.get(('out', evid_of(ev))) == 'none'
