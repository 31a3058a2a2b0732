"""The bundled codecs and the derived wire format of what they carry."""
from core import *
from proto import variant

CFG = 'codecs'
WHAT = (('header', 'Header'), ('member', 'Member'))


def calls(p):
    return [ev for ev in p.ev if ev.op == 'ev' and ev.a[0] == 'call']


def runs(c, E, buf=None):
    """paths of a codec method; the buffer is passed by reference, so that what is consumed shows"""
    bs = c.prog(CFG).find(E)
    if len(bs) != 1:
        raise Missing('%s: %d definitions' % (E, len(bs)))
    if buf is None:
        return c.run(E, 'leaf', CFG)
    root = ('O', 'buf')

    def setup(eng, st, a):
        st.mem[root] = sym('buf')
        return [st]
    return c.run(E, 'leaf', CFG, args={buf: mk('ref', root, ())}, setup=setup, tag='buf')


def lib(ev, *names):
    return ev.a[1] in names


def outcome(c, p, r):
    """does the path see the library call succeed?"""
    return c.ev(p, c.isv(r, 'Result', 'Ok'))


def result_is(c, E, p, r, value, what):
    """Ok of the library becomes Ok(value), Err an error"""
    if p.ret is r:
        return c.ob(value is None, E, what + ': the outcome of the library is returned')
    o = outcome(c, p, r)
    if vname(p.ret) == 'Ok':
        c.ob(o is True, E, what + ': success is reported only when the library succeeded')
        if value is not None:
            c.ob(get(p.ret, '0') is value, E, what + ': the decoded value is returned')
    else:
        c.ob(vname(p.ret) == 'Err' and o is False, E, what + ': an error is reported only when the library failed')


@rule('C.bincode', 'C20 C07', 'BincodeCodec encodes exactly the given value into the given buffer and decodes one value from the given buffer, with its own configuration, and passes failures on', floor=20)
def bincode(c):
    for w, _ in WHAT:
        E = '<BincodeCodec as Codec>::encode_' + w
        for p in runs(c, E):
            v, b = c.param(E, 1, CFG), c.param(E, 2, CFG)
            cs = calls(p)
            ok = len(cs) == 2 and cs[0].a[1].endswith('BufMut::writer') and eargs(cs[0])[0] is b and cs[1].a[1] == 'bincode::serde::encode_into_std_write'
            c.ob(ok, E, 'writes one encoded value into the buffer')
            if not ok:
                continue
            a = eargs(cs[1])
            c.ob(a[0] is v, E, 'encodes the value given')
            c.ob(a[1] is eres(cs[0]), E, 'writes through the bounded writer of the buffer given')
            c.ob(a[2] is S('0'), E, 'uses its configuration')
            result_is(c, E, p, eres(cs[1]), None, 'encoding')
            c.ob(vname(p.ret) != 'Ok' or get(p.ret, '0') is UNIT, E, 'success carries nothing')
        E = '<BincodeCodec as Codec>::decode_' + w
        for p in runs(c, E):
            b = c.param(E, 1, CFG)
            cs = calls(p)
            ok = len(cs) == 2 and cs[0].a[1].endswith('Buf::reader') and eargs(cs[0])[0] is b and cs[1].a[1] == 'bincode::serde::decode_from_std_read'
            c.ob(ok, E, 'reads one encoded value from the buffer')
            if not ok:
                continue
            a = eargs(cs[1])
            c.ob(a[0] is eres(cs[0]), E, 'reads from the buffer given, advancing it')
            c.ob(a[1] is S('0'), E, 'uses its configuration')
            result_is(c, E, p, eres(cs[1]), payload(eres(cs[1]), 'Ok'), 'decoding')


@rule('C.bounded', 'C20', 'a decoder must not size an allocation by a length field of the input before the input is known to be that long '
      '(bincode::serde::decode_from_std_read does, unless the configuration carries a limit)', floor=2)
def bounded(c):
    for w, _ in WHAT:
        for ty in ('BincodeCodec', 'PostcardCodec'):
            E = '<%s as Codec>::decode_%s' % (ty, w)
            for p in runs(c, E):
                for ev in calls(p):
                    c.ob(not ev.a[1].endswith('decode_from_std_read'), E, 'allocations are bounded by the input', c.site(p, ev))


@rule('C.postcard', 'C20 C07', 'PostcardCodec encodes exactly the given value through a writer that refuses what does not fit, decodes one value, and advances the buffer by exactly the bytes consumed', floor=24)
def postcard(c):
    for w, _ in WHAT:
        E = '<PostcardCodec as Codec>::encode_' + w
        for p in runs(c, E):
            v, b = c.param(E, 1, CFG), c.param(E, 2, CFG)
            cs = calls(p)
            ok = len(cs) == 1 and cs[0].a[1] == 'postcard::serialize_with_flavor'
            c.ob(ok, E, 'writes one encoded value')
            if ok:
                a = eargs(cs[0])
                c.ob(a[0] is v, E, 'encodes the value given')
                c.ob(a[1].op == 'adt' and a[1].a[1] == 'WrappedBuf' and a[1].a[3][0] is b, E, 'writes through the bounded writer, into the buffer given')
                result_is(c, E, p, eres(cs[0]), None, 'encoding')
        E = '<PostcardCodec as Codec>::decode_' + w
        B = sym('buf')
        for p in runs(c, E, 'buf'):
            cs = calls(p)
            ok = len(cs) == 1 and cs[0].a[1] == 'postcard::take_from_bytes' and eargs(cs[0])[0] is B
            c.ob(ok, E, 'reads one encoded value from the start of the buffer')
            if not ok:
                continue
            r = eres(cs[0])
            t = payload(r, 'Ok')
            result_is(c, E, p, r, get(t, '0'), 'decoding')
            if vname(p.ret) == 'Ok':
                end = p.eng.snap(p.st, mk('ref', ('O', 'buf'), ()))
                n = add(app('len', B), app('len', get(t, '1')), -1)
                c.ob(end.op == 'adv' and end.a[0] is B and end.a[1] is n, E, 'the buffer is advanced by exactly what was consumed')
    for m, width in (('try_push', integer(1)), ('try_extend', None)):
        E = '<WrappedBuf as Flavor>::' + m
        d = c.param(E, 1, CFG)
        n = width if width is not None else app('len', d)
        room = app('room', S('0'))
        seen = set()
        for p in runs(c, E):
            fit = rel(n, room, 3)
            for (fits,), _ in c.tablef(p.f, [c.d_bool(fit)]):
                seen.add(fits)
                fin = c.final(p)
                if fits:
                    x = get(fin, '0')
                    c.ob(vname(p.ret) == 'Ok' and x.op == 'put' and whole(x.a[1], d, width) and x.a[2] is S('0'), E, 'what fits is written, whole')
                else:
                    c.ob(vname(p.ret) == 'Err' and fin is SELF, E, 'what does not fit is refused without writing')
        c.ob(seen == {True, False}, E, 'the room left decides')
    E = '<WrappedBuf as Flavor>::finalize'
    for p in runs(c, E):
        c.ob(vname(p.ret) == 'Ok' and not calls(p), E, 'finishing adds nothing')


def whole(v, d, width):
    """the bytes written are exactly the data"""
    return v is d or width is not None and v is mk('arr', (d,))


def impl(c, ty, tr, name):
    return [b for b in c.prog(CFG).local if b.get('name') == name and (b.get('impl_self') or '').split('<')[0].split('::')[-1] == ty
            and (b.get('impl_trait') or '').split(' as ')[-1].rstrip('>').split('<')[0].split('::')[-1] == tr]


@rule('C.wire', 'C20 C07 C12', 'the derived serialisation of headers, messages, members and states writes every field of the very value, in order, under a tag of its own, and the derived '
      'deserialisation reads the same fields back in the same order under the same tags', floor=60)
def wire(c):
    p = c.prog(CFG)
    for ty in ('Header', 'Message', 'Member', 'State'):
        ad = p.adts[c.engine('leaf', CFG).adt_named(ty)]
        ser, de = impl(c, ty, 'Serialize', 'serialize'), impl(c, ty, 'Deserialize', 'deserialize')
        c.ob(len(ser) == 1 and len(de) == 1, ty, 'can be serialised and deserialised')
        if len(ser) != 1 or len(de) != 1:
            continue
        enum = ad.get('kind') == 'enum' or len(ad['variants']) > 1
        tags, full = {}, set()
        for q in c.run(ty + '::serialize', 'leaf', CFG, key=ser[0]['key']):
            if vname(q.ret) == 'Err':
                continue
            vs = [v for v in ad['variants'] if c.ev(q, c.isv(SELF, ty, v['name'])) is not False] if enum else ad['variants']
            if len(vs) != 1:
                c.ob(False, ty, 'each variant is written in its own way')
                continue
            v = vs[0]
            base = mk('as', SELF, v['name']) if enum else SELF
            want = [mk('fld', base, f['name']) for f in v['fields']]
            got, tag = [], None
            for ev in calls(q):
                n = ev.a[1].split('::')[-1]
                a = eargs(ev)
                if n in ('serialize_unit_variant', 'serialize_newtype_variant', 'serialize_struct_variant', 'serialize_tuple_variant'):
                    tag = a[2].a[0] if a[2].op == 'int' else None
                if n == 'serialize_newtype_variant':
                    got.append(a[4])
                elif n == 'serialize_newtype_struct':
                    got.append(a[2])
                elif n in ('serialize_field', 'serialize_element'):
                    got.append(a[-1])
                elif n not in ('serialize_unit_variant', 'serialize_struct_variant', 'serialize_tuple_variant', 'serialize_struct', 'serialize_tuple_struct', 'serialize_tuple', 'end'):
                    got.append(None)
            c.ob(got == want, ty, v['name'] + ': every field is written, in order')
            full.add(v['name'])
            if enum:
                c.ob(tag is not None and tag not in tags, ty, v['name'] + ': has a tag of its own')
                tags[tag] = v['name']
        c.ob(full == {v['name'] for v in ad['variants']}, ty, 'every variant can be written')
        root = de[0]['key']
        bodies = [b for b in p.local if b['key'].startswith(root + '::') and b['kind'] != 'Closure']
        # sequences: what each visitor builds
        built = {}
        for b in bodies:
            if b.get('name') != 'visit_seq':
                continue
            for q in c.run(b['key'], 'leaf', CFG, key=b['key']):
                if vname(q.ret) == 'Err':
                    continue
                val = get(q.ret, '0')
                seq = [ev for ev in calls(q) if ev.a[1].endswith('next_element')]
                want = [payload(payload(eres(ev), 'Ok'), 'Some') for ev in seq]
                ok = val.op == 'adt' and list(val.a[3]) == want and len(calls(q)) == len(seq)
                built[val.a[1] if val.op == 'adt' else None] = ok
        if not enum:
            c.ob(built.get(ad['variants'][0]['name']) is True, ty, 'every field is read back, in order')
            continue
        tagof = {}
        for b in bodies:
            if b.get('name') == 'visit_u64' and b['key'].count('::visit_') == 1:
                x = sym('__value')
                for q in c.run(b['key'], 'leaf', CFG, key=b['key']):
                    if vname(q.ret) == 'Ok':
                        for t in tags:
                            if t is not None and c.ev(q, rel(x, integer(t), 2)) is True:
                                tagof[get(q.ret, '0').a[1]] = t
        read = {}
        for b in bodies:
            if b.get('name') != 'visit_enum':
                continue
            for q in c.run(b['key'], 'leaf', CFG, key=b['key']):
                if vname(q.ret) == 'Err':
                    continue
                fs = [next(iter(v)) for k, v in q.f.d.items() if k[0] == 'var' and len(v) == 1 and next(iter(v)) in tagof]
                if len(fs) != 1:
                    continue
                if vname(q.ret) == 'Ok':
                    val = get(q.ret, '0')
                    cs = [ev for ev in calls(q) if ev.a[1].endswith('_variant')]
                    okp = val.op == 'adt' and (not val.a[3] and len(cs) == 1 and cs[0].a[1].endswith('unit_variant')
                                               or len(cs) == 1 and cs[0].a[1].endswith('newtype_variant') and list(val.a[3]) == [payload(eres(cs[0]), 'Ok')])
                    read[tagof[fs[0]]] = val.a[1] if okp else None
                else:
                    evs = [ev for ev in calls(q) if ev.a[1].endswith('struct_variant') or ev.a[1].endswith('tuple_variant')]
                    name = None
                    if len(evs) == 1 and q.ret is eres(evs[0]):
                        name = by_visitor(c, bodies, eargs(evs[0])[-1], built)
                    read[tagof[fs[0]]] = name
        for t, v in tags.items():
            c.ob(read.get(t) == v, ty, str(v) + ': is read back from its tag, field by field')


def by_visitor(c, bodies, visitor, built):
    """the variant the visitor passed to struct_variant builds"""
    if visitor.op != 'adt':
        return None
    for b in bodies:
        if b.get('name') == 'visit_seq' and b.get('self_adt') == visitor.a[0]:
            for q in c.run(b['key'], 'leaf', CFG, key=b['key']):
                if vname(q.ret) == 'Ok' and get(q.ret, '0').op == 'adt':
                    n = get(q.ret, '0').a[1]
                    return n if built.get(n) else None
    return None
