"""Building blocks of the protocol rules: effect lists, fan-out loops,
consequences of a membership change, connection state transitions."""
from core import *
import contracts
from contracts import case_list
from rules_members import exact

HARMLESS = {'decode_header', 'decode_member', 'encode_member', 'encode_header', 'buf_get2', 'with_capacity'}
PROBE = ('direct', 'indirect', 'direct_ack_ok', 'indirect_ack_count', 'reached_indirect_probe_stage')


TRACE = {'DataReceived', 'DataSent', 'ProbeFailed'}      # feature unstable-notifications


def is_trace(ev):
    return is_call(ev, 'notify') and vname(eargs(ev)[0]) in TRACE


def is_effect(ev):
    return ev.op == 'ev' and ev.a[0] == 'call' and ev.a[1] not in HARMLESS and not pure_std(ev.a[1]) and not is_trace(ev)


def pure_std(name):
    return name.split('::')[0] in ('core', 'alloc', 'std')


def own_writes(seg):
    """writes to fields of the instance that outlive the call"""
    return [ev for ev in seg.ev if is_write(ev) and wroot(ev) is SELF and wfields(ev) and wfields(ev)[0] not in SCRATCH]


class Fan:
    """one message to each member of a random choice"""
    def __init__(self, choose):
        self.choose, self.loop, self.tail, self.segs = choose, None, None, []

    @property
    def evid(self):
        return evid_of(self.choose)

    def member(self, t):
        """is t the identity of one of the chosen members?"""
        return t.op == 'fld' and t.a[1] == 'id' and t.a[0].op == 'elem' and t.a[0].a[0].op == 'chosen' and t.a[0].a[0].a[0] is self.evid


def effects(c, path, seg=None, start=0, stop=None):
    """effects of a straight stretch, in order: events, Fans, ('loop', event, [iteration segments])"""
    seg = seg or c.segs(path, iters=False)[0]
    out = []
    fans = {}
    for ev in seg.ev[start:stop]:
        if is_loop(ev):
            its = []
            c._iters(path, ev, seg, its)
            if not any(is_effect(x) for s in its for x in s.ev):
                continue
            fan = None
            sends = [x for s in its for x in s.ev if is_call(x, 'send')]
            others = [x for s in its for x in s.ev if is_effect(x) and not is_call(x, 'send')]
            if sends and not others:
                for f in fans.values():
                    if all(f.member(eargs(x)[0]) for x in sends):
                        fan = f
            if fan is not None and fan.loop is None:
                fan.loop, fan.segs = ev, its
            else:
                out.append(('loop', ev, its))
        elif is_effect(ev):
            if is_call(ev, 'choose'):
                f = Fan(ev)
                fans[f.evid] = f
                out.append(f)
                continue
            if is_call(ev, 'send'):
                f = [f for f in fans.values() if f.member(eargs(ev)[0])]
                if f and f[0].tail is None:
                    f[0].tail = ev
                    continue
            out.append(ev)
    return out


def describe(x):
    if isinstance(x, Fan):
        return 'fan-out'
    if isinstance(x, tuple):
        return 'loop'
    return '%s(%s)' % (x.a[1], ', '.join(show(a) for a in eargs(x)))


def same(c, a, b):
    return a is b or (a.op == b.op == 'adt' and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]) and all(same(c, x, get(b, n)) for n, x in zip(a.a[4], a.a[3])))


class Known:
    """the facts under which two spellings of one value are compared"""
    c = f = None

    def __init__(self, c, f):
        self.now = (c, f)

    def __enter__(self):
        self.old = (Known.c, Known.f)
        Known.c, Known.f = self.now

    def __exit__(self, *x):
        Known.c, Known.f = self.old


def whole(data):
    """data is one member, successfully encoded into an empty buffer"""
    return data.op == 'enc' and data.a[0] == 'encode_member' and data.a[2].op == 'vempty' and (
        Known.f is None or Known.c.ev(Known.f, Known.c.isv(mk('res', data.a[3]), 'Result', 'Ok')) is True)


def eqv(a, b):
    """the two terms stand for the same value under the facts in force"""
    if a is b:
        return True
    if a.op == b.op == 'adt':
        return a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]) and all(eqv(x, get(b, n)) for n, x in zip(a.a[4], a.a[3]))
    if Known.f is None or a.op in ('int', 'adt') and b.op in ('int', 'adt'):
        return False
    if Known.c.ev(Known.f, rel(a, b, 2)) is True:
        return True
    try:
        return Known.c.ev(Known.f, Known.c.eq(a, b)) is True
    except AnalysisError:
        return False


def variant(t, name, *fields):
    """t is the enum/struct value name{fields} (fields: positional, or (name, value))"""
    if t.op != 'adt' or t.a[1] != name:
        return False
    for i, f in enumerate(fields):
        if isinstance(f, tuple):
            if not eqv(get(t, f[0]), f[1]):
                return False
        elif i >= len(t.a[3]) or not eqv(t.a[3][i], f):
            return False
    return True


# ---- expected effects -------------------------------------------------------
class Want:
    def __init__(self, text, pred, optional=False):
        self.text, self.pred, self.optional, self.hit = text, pred, optional, None


def w_send(text, dst, name, *fields):
    return Want(text, lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'send') and eqv(eargs(x)[0], dst) and variant(eargs(x)[1], name, *fields))


def w_notify(text, name, *fields):
    return Want(text, lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'notify') and variant(eargs(x)[0], name, *fields))


def w_timer(text, name, fields, after):
    return Want(text, lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'submit_after') and variant(eargs(x)[0], name, *fields) and eqv(eargs(x)[1], after))


def w_call(text, name, *args):
    return Want(text, lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, name) and all(a is None or eqv(eargs(x)[i], a) for i, a in enumerate(args)))


def w_fan(text, pred):
    return Want(text, lambda x: isinstance(x, Fan) and pred(x))


def expect(c, E, label, got, wants, site=None, path=None, f=None):
    """the effects are exactly the wanted ones"""
    with Known(c, f if f is not None else path.f if path is not None else Known.f):
        return expect_(c, E, label, got, wants, site, path)


def expect_(c, E, label, got, wants, site, path):
    left = list(got)
    good = True
    for w in wants:
        for i, x in enumerate(left):
            if w.pred(x):
                w.hit = x
                del left[i]
                break
        if not w.optional:
            c.ob(w.hit is not None, E, label + ': ' + w.text, site)
            if w.hit is None:
                good = False
                c.detail(E, label + ': ' + w.text, 'effects: ' + '; '.join(describe(x) for x in got)[:600])
    s = site
    for x in left:
        if path is not None and not isinstance(x, (Fan, tuple)):
            s = c.site(path, x)
    c.ob(not left, E, label + ': nothing else happens', s)
    if left:
        c.detail(E, label + ': nothing else happens', 'also: ' + '; '.join(describe(x) for x in left)[:600])
    return good and not left


# ---- fan-out -----------------------------------------------------------------
def fan_ok(c, E, label, path, fan, wanted, conj, msg, members=None, stop=None, scale=1):
    """checks the choice and the loop; conj(placeholder) is the exact predicate"""
    w, cs, old, mem = eargs(fan.choose)[:4]
    site = c.site(path, fan.choose)
    c.ob(w is wanted, E, label + ': at most the configured number of members', site)
    c.ob(old.op == 'vempty', E, label + ': starts from an empty choice', site)
    c.ob(mem is cur(fan.choose, 'members'), E, label + ': chosen from the current members', site)
    ph = cs.a[0]
    c.ob(exact(c, (ph, case_list(cs)), conj(ph)), E, label + ': chosen exactly among the eligible members', site)
    ends = {v for s in fan.segs for v in [s]}
    if fan.loop is None and fan.tail is None:
        ch = [k for k in path.f.d if any(isinstance(x, T) and x.op == 'chosen' and x.a[0] is fan.evid for x in subterms(k[1:]))]
        c.ob(False, E, label + ': every chosen member is sent the message', site)
        return
    for s in fan.segs:
        ss = [ev for ev in s.ev if is_call(ev, 'send')]
        c.ob(len(ss) == 1, E, label + ': one message per chosen member', site)
        c.ob(all(moves_on(s, eargs(ev)[0]) for ev in ss), E, label + ': every chosen member is used once', site)
        for ev in ss:
            c.ob(msg(eargs(ev)[1], ev), E, label + ': the right message', c.site(path, ev))
    if fan.tail is not None:
        ev = fan.tail
        c.ob(msg(eargs(ev)[1], ev), E, label + ': the right message', c.site(path, ev))
    return


def moves_on(seg, dst):
    """the next round of the loop does not meet the same element again"""
    ixs = [x.a[1] for x in subterms(dst) if x.op == 'elem']
    if any(y.op == 'popd' for _, y in seg.steps):
        return True
    if not ixs:
        return False
    ups = dict(seg.steps)
    # an iterator's position or one that a counter of the loop determines
    return any(y.op == 'ix' or y in ups for i in ixs for y in subterms(i))


def exhausted(c, path, fan):
    """the loop went through the whole choice (as far as this path says)"""
    for k, v in path.f.d.items():
        if k[0] == 'b' and v is True and k[1].op == 'itend' and any(x.op == 'chosen' and x.a[0] is fan.evid for x in subterms(k[1])):
            return True
        if k[0] in ('rel', 'iv') and any(x.op == 'chosen' and x.a[0] is fan.evid for x in subterms(k[1])) and k[1].op == 'app' and k[1].a[0] == 'len':
            if k[0] == 'rel' and k[2] is integer(0) and v == 2 or k[0] == 'iv' and v == (0, 0):
                return True
        if k[0] == 'var' and v == frozenset(['None']) and any(x.op == 'chosen' and x.a[0] is fan.evid for x in subterms(k[1])):
            return True
    return False


# ---- final values ------------------------------------------------------------
def loop_inits(path):
    d = {}

    def go(evs):
        for ev in evs:
            if is_loop(ev):
                for pr in ev.a[3].a[0]:
                    d[pr.a[0]] = pr.a[1]
    go(path.ev)
    return d


def base_of(v, inits):
    """the value below everything contract calls may have done to it"""
    n = 0
    while n < 400:
        n += 1
        if v.op == 'after':
            v = v.a[1]
        elif v in inits:
            v = inits[v]
        else:
            return v
    return v


def kept(c, path, field, start=None):
    """the field ends as it began, up to what the modelled calls do to it"""
    start = start or S(field)
    inits = loop_inits(path)
    v = get(c.final(path), field)
    if base_of(v, inits) is not start:
        return False
    # loop bodies keep it too
    for s in c.segs(path):
        if s.kind != 'iter':
            continue
        for lv, nv in s.steps:
            if lv in inits and base_of(inits[lv], inits) is start:
                if base_of(nv, {}) is not lv:
                    return False
    return True


def keeps(c, E, label, path, fields, site=None):
    for f in fields:
        c.ob(kept(c, path, f), E, label + ': ' + f + ' is left alone', site)


def own_fields(c):
    return [f['name'] for f in c.prog().adts[contracts.FOCA]['variants'][0]['fields']]


STATE_FIELDS = ('identity', 'incarnation', 'config', 'connection_state', 'timer_token', 'members', 'probe', 'updates', 'custom_broadcasts', 'broadcast_handler', 'codec')


def wrapped1(v, base, f=None):
    """v is base + 1, wrapping (f: facts of the path, to tell how it got there)"""
    if v.op == 'wrap':
        v = v.a[0]
    if v is integer(0):
        # back to the first one after the last one
        return f is not None and f.iv(base)[0] in (2**8 - 1, 2**16 - 1, 2**32 - 1, 2**64 - 1)
    # (that this cannot overflow: P.none)
    return v is add(base, integer(1))


def probe_cleared(c, E, label, pr, base, site=None):
    c.ob(vname(get(pr, 'direct')) == 'None' and get(pr, 'indirect').op == 'vempty' and get(pr, 'direct_ack_ok') is FALSE and
         get(pr, 'indirect_ack_count') is integer(0) and get(pr, 'reached_indirect_probe_stage') is FALSE, E, label + ': the running probe is forgotten', site)
    c.ob(get(pr, 'probe_number') is get(base, 'probe_number'), E, label + ': the probe number is kept', site)


# ---- consequences of applying one update --------------------------------------
def out_of(seg, ev):
    return seg.f.d.get(('out', evid_of(ev)), 'unknown')


def applied(ev):
    """the update an apply call is about"""
    return eargs(ev)[0]


def post_wants(c, seg, ev, broadcast, aborted):
    """effects one application must have, given its outcome"""
    o = out_of(seg, ev)
    U = applied(ev)
    uid = get(U, 'id')
    ws = []
    if o is None or o == 'unknown':
        return ws, o
    act, okk, chg, conf = o
    if okk and broadcast:
        def is_backlog(x):
            if isinstance(x, (Fan, tuple)) or not is_call(x, 'backlog_add'):
                return False
            w, key, data, tx = eargs(x)[:4]
            return (w is mk('k', 'updates') and eqv(get(key, '0'), app('addr', uid)) and whole(data)
                    and eqv(data.a[1], U) and tx is nz(cur(x, 'config', 'max_transmissions')))
        ws.append(Want('the change is put in the update backlog once, as applied, keyed by address, for max_transmissions datagrams', is_backlog, aborted))
    if okk and not act:
        ws.append(Want('forgetting the member is scheduled after remove_down_after', lambda x: not isinstance(x, (Fan, tuple)) and is_call(x, 'submit_after')
                       and variant(eargs(x)[0], 'RemoveDown', uid) and eargs(x)[1] is cur(x, 'config', 'remove_down_after'), aborted))
    if conf == 'Replaced':
        ws.append(w_notify('Rename(old, new) is notified', 'Rename', mk('res', evid_of(ev), 'replaced'), uid))
        ws[-1].optional = aborted
    if chg:
        n = 'MemberUp' if act else 'MemberDown'
        ws.append(w_notify(n + ' is notified', n, uid))
        ws[-1].optional = aborted
    return ws, o


def rename_first(c, E, label, got, site=None):
    ns = [vname(eargs(x)[0]) for x in got if not isinstance(x, (Fan, tuple)) and is_call(x, 'notify')]
    if 'Rename' in ns:
        i = ns.index('Rename')
        c.ob(not any(n in ('MemberUp', 'MemberDown') for n in ns[:i]), E, label + ': Rename comes before MemberUp/MemberDown', site)


# ---- connection state ---------------------------------------------------------
PERIODIC = (('periodic_announce', 'PeriodicAnnounce'), ('periodic_announce_to_down_members', 'PeriodicAnnounceDown'), ('periodic_gossip', 'PeriodicGossip'))


def loop_timers(c, f, token, config):
    """timers of a fresh epoch, given which periodic tasks are enabled"""
    ws = [w_timer('the probe loop is started once, in this epoch, after probe_period', 'ProbeRandomMember', (token,), get(config, 'probe_period'))]
    for field, t in PERIODIC:
        o = get(config, field)
        on = c.ev(f, c.isv(o, 'Option', 'Some'))
        if on is True:
            ws.append(w_timer(t + ' is started once, in this epoch, after its own frequency', t, (token,), get(payload(o, 'Some'), 'frequency')))
        elif on is None:
            ws.append(Want(t + ' is started iff it is enabled', lambda x: False))
    return ws


def config_fixed(ev):
    return cur(ev, 'config')


def conn_dims(c, conn, active):
    return [c.d_var(conn, 'ConnectionState'), [('none', [(rel(active, integer(0), 2), True)]), ('some', [(rel(active, integer(0), 4), True)])]]


def check_conn(c, E, label, path, f, before, want, fin, site=None):
    """final connection fields.  before: dict of terms; want: Connected/Disconnected/Undead/same"""
    conn, tok, pr = get(fin, 'connection_state'), get(fin, 'timer_token'), get(fin, 'probe')
    if want == 'same':
        c.ob(conn is before['conn'], E, label + ': connection state unchanged', site)
        c.ob(tok is before['token'], E, label + ': same epoch', site)
        c.ob(pr is before['probe'], E, label + ': the probe is left alone', site)
    elif want == 'Connected':
        c.ob(vname(conn) == 'Connected', E, label + ': becomes connected', site)
        c.ob(tok is before['token'], E, label + ': same epoch', site)
        c.ob(pr is before['probe'], E, label + ': the probe is left alone', site)
    else:
        c.ob(vname(conn) == want, E, label + ': becomes ' + want, site)
        c.ob(wrapped1(tok, before['token'], getattr(f, 'f', f)), E, label + ': a new epoch begins, older timers become stale', site)
        probe_cleared(c, E, label, pr, before['probe'], site)


def adjust_wants(c, f, conn, active, token, config):
    """(label, wants, final) of adjusting to the member count"""
    st = [v for v in ('Disconnected', 'Connected', 'Undead') if c.ev(f, c.isv(conn, 'ConnectionState', v)) is not False]
    if st == ['Disconnected'] and c.ev(f, rel(active, integer(0), 4)) is True:
        return 'active members while disconnected', loop_timers(c, f, token, config) + [w_notify('Active is notified', 'Active')], 'Connected'
    if st == ['Connected'] and c.ev(f, rel(active, integer(0), 2)) is True:
        return 'the last active member is gone while connected', [w_notify('Idle is notified', 'Idle')], 'Disconnected'
    if 'Disconnected' in st and c.ev(f, rel(active, integer(0), 2)) is not True or 'Connected' in st and c.ev(f, rel(active, integer(0), 4)) is not True:
        return 'connection state not adjusted', None, None
    return 'nothing to adjust', [], 'same'


# ---- own death -----------------------------------------------------------------
def death_dims(c, ident):
    ren = app('renew', ident)
    new = payload(ren, 'Some')
    return [c.d_var(ren, 'Option'), c.d_bool(c.eq(new, ident)), c.d_bool(app('win_addr_conflict', new, ident))], new


def death_wants(c, combo, new):
    v, e, w = combo
    if v == 'Some' and not e and w:
        return 'rejoin', [w_call('switches to the renewed identity', 'change_identity', new), w_notify('Rejoin(new identity) is notified', 'Rejoin', new)]
    return 'defunct', [w_notify('Defunct is notified', 'Defunct')]
