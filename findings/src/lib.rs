//! Demonstrations of the defects recorded in known-findings.txt, against the
//! public API.  Not run by any check (the checks are static); kept so that each
//! recorded defect can be reproduced.
#![cfg(test)]
use foca::*;
use rand::{rngs::SmallRng, SeedableRng};
use std::num::NonZeroUsize;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
struct Id { a: u8, g: u8, renewable: bool }
impl Identity for Id {
    type Addr = u8;
    fn addr(&self) -> u8 { self.a }
    fn renew(&self) -> Option<Self> { self.renewable.then(|| Id { a: self.a, g: self.g + 1, renewable: true }) }
    fn win_addr_conflict(&self, o: &Self) -> bool { self.g > o.g }
}
fn id(a: u8) -> Id { Id { a, g: 0, renewable: false } }
fn idg(a: u8, g: u8) -> Id { Id { a, g, renewable: false } }
type C = BincodeCodec<bincode::config::Configuration>;
fn codec() -> C { BincodeCodec(bincode::config::standard()) }
fn cfg() -> Config { let mut c = Config::simple(); c.notify_down_members = true; c }
fn node(i: Id, c: Config) -> Foca<Id, C, SmallRng, NoCustomBroadcast> { Foca::new(i, c, SmallRng::seed_from_u64(1), codec()) }
fn sends(rt: &mut AccumulatingRuntime<Id>) -> Vec<(Id, Vec<u8>)> { let mut v = vec![]; while let Some((t, d)) = rt.to_send() { v.push((t, d.to_vec())); } v }
fn timers(rt: &mut AccumulatingRuntime<Id>) -> Vec<Timer<Id>> { let mut v = vec![]; while let Some((_, t)) = rt.to_schedule() { v.push(t); } v }
fn notes(rt: &mut AccumulatingRuntime<Id>) -> Vec<OwnedNotification<Id>> { let mut v = vec![]; while let Some(t) = rt.to_notify() { v.push(t); } v }
fn tok(ts: &[Timer<Id>]) -> TimerToken { ts.iter().find_map(|t| if let Timer::ProbeRandomMember(x) = t { Some(*x) } else { None }).unwrap() }

#[test]
fn c11_cancelled_timeout_has_no_effect() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::new(id(2), 0, State::Suspect)].into_iter(), false, &mut rt).unwrap();
    let token = tok(&timers(&mut rt));
    f.apply_many([Member::new(id(2), 1, State::Alive)].into_iter(), false, &mut rt).unwrap();
    notes(&mut rt); timers(&mut rt); sends(&mut rt);
    f.handle_timer(Timer::ChangeSuspectToDown { member_id: id(2), incarnation: 0, token }, &mut rt).unwrap();
    assert!(sends(&mut rt).is_empty(), "cancelled timeout sent a datagram");
}
#[test]
fn c11_timeout_does_not_touch_another_identity() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(3)), Member::new(idg(2, 1), 0, State::Suspect)].into_iter(), false, &mut rt).unwrap();
    let token = tok(&timers(&mut rt));
    f.apply_many([Member::new(idg(2, 1), 0, State::Down)].into_iter(), false, &mut rt).unwrap();
    f.handle_timer(Timer::RemoveDown(idg(2, 1)), &mut rt).unwrap();
    f.apply_many([Member::alive(idg(2, 0))].into_iter(), false, &mut rt).unwrap();
    notes(&mut rt); timers(&mut rt); sends(&mut rt);
    f.handle_timer(Timer::ChangeSuspectToDown { member_id: idg(2, 1), incarnation: 0, token }, &mut rt).unwrap();
    assert!(notes(&mut rt).is_empty());
    assert!(f.iter_members().any(|m| m.id() == &idg(2, 0)));
}
#[test]
fn c12_failed_probe_does_not_resurrect_forgotten_identity() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(idg(2, 1))].into_iter(), false, &mut rt).unwrap();
    let token = tok(&timers(&mut rt));
    f.handle_timer(Timer::ProbeRandomMember(token), &mut rt).unwrap();
    f.handle_timer(Timer::SendIndirectProbe { probed_id: idg(2, 1), token }, &mut rt).unwrap();
    f.apply_many([Member::alive(id(3)), Member::new(idg(2, 1), 0, State::Down)].into_iter(), false, &mut rt).unwrap();
    f.handle_timer(Timer::RemoveDown(idg(2, 1)), &mut rt).unwrap();
    f.apply_many([Member::alive(idg(2, 0))].into_iter(), false, &mut rt).unwrap();
    f.handle_timer(Timer::ProbeRandomMember(token), &mut rt).unwrap();
    assert!(f.iter_members().any(|m| m.id() == &idg(2, 0)), "record of an untouched identity was replaced by the stale probe target");
}
#[test]
fn c18_turnundead_does_not_bounce() {
    let mut rt = AccumulatingRuntime::new();
    let mut a = node(id(1), cfg());
    let mut b = node(id(2), cfg());
    a.apply_many([Member::new(id(2), 0, State::Down)].into_iter(), false, &mut rt).unwrap();
    b.apply_many([Member::new(id(1), 0, State::Down)].into_iter(), false, &mut rt).unwrap();
    sends(&mut rt);
    a.announce(id(2), &mut rt).unwrap();
    let mut n = 0;
    loop {
        let out = sends(&mut rt);
        if out.is_empty() { break; }
        for (t, d) in out { n += 1; let x = if t.a == 1 { &mut a } else { &mut b }; x.handle_data(&d, &mut rt).unwrap(); }
        assert!(n < 100, "message storm");
    }
}
#[test]
fn c19_announce_to_down_avoids_own_address() {
    let mut c = cfg();
    c.periodic_announce_to_down_members = Some(PeriodicParams { frequency: Duration::from_secs(1), num_members: NonZeroUsize::new(3).unwrap() });
    let mut f = node(idg(1, 1), c);
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(2)), Member::new(idg(1, 0), 0, State::Down)].into_iter(), false, &mut rt).unwrap();
    let token = tok(&timers(&mut rt));
    sends(&mut rt);
    f.handle_timer(Timer::PeriodicAnnounceDown(token), &mut rt).unwrap();
    assert!(sends(&mut rt).iter().all(|(t, _)| t.a != 1));
}
#[test]
fn c06_set_config_packet_size() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    let mut c = cfg();
    c.max_packet_size = NonZeroUsize::new(5000).unwrap();
    f.set_config(c).unwrap();
    f.announce(id(2), &mut rt).unwrap();
}
#[test]
fn c06_huge_config() {
    let mut c = cfg();
    c.max_packet_size = NonZeroUsize::MAX;
    let mut f = node(id(1), c.clone());
    f.announce(id(2), AccumulatingRuntime::new()).unwrap();
    let mut c = cfg();
    c.num_indirect_probes = NonZeroUsize::MAX;
    let mut f = node(id(1), c);
    f.announce(id(2), AccumulatingRuntime::new()).unwrap();
}
struct H;
impl BroadcastHandler<Id> for H {
    type Key = K;
    type Error = BroadcastsDisabledError;
    fn receive_item(&mut self, _d: &[u8], _s: Option<&Id>) -> Result<Option<K>, BroadcastsDisabledError> { Ok(Some(K)) }
}
struct K;
impl Invalidates for K { fn invalidates(&self, _: &K) -> bool { false } }
#[test]
fn c16_oversized_item_is_refused() {
    let mut c = cfg();
    c.max_packet_size = NonZeroUsize::new(200_000).unwrap();
    let mut f = Foca::with_custom_broadcast(id(1), c, SmallRng::seed_from_u64(1), codec(), H);
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(2))].into_iter(), false, &mut rt).unwrap();
    assert_eq!(Err("DataTooBig".to_string()), f.add_broadcast(&vec![0; 70_000]).map_err(|e| format!("{e:?}")));
    f.gossip(&mut rt).unwrap();
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Wide(u32);
impl Identity for Wide { type Addr = u32; fn addr(&self) -> u32 { self.0 } fn renew(&self) -> Option<Self> { None } fn win_addr_conflict(&self, _: &Self) -> bool { false } }
struct WideCodec;
impl Codec<Wide> for WideCodec {
    type Error = BroadcastsDisabledError;
    fn encode_header(&mut self, p: &Header<Wide>, mut b: impl bytes::BufMut) -> Result<(), Self::Error> { b.put_u8(match p.message { Message::Feed => 1, Message::Announce => 2, _ => 0 }); b.put_u32(p.src.0); b.put_u32(p.dst.0); Ok(()) }
    fn decode_header(&mut self, mut b: impl bytes::Buf) -> Result<Header<Wide>, Self::Error> { let k = b.get_u8(); Ok(Header { src: Wide(b.get_u32()), src_incarnation: 0, dst: Wide(b.get_u32()), message: if k == 2 { Message::Announce } else { Message::Gossip } }) }
    fn encode_member(&mut self, m: &Member<Wide>, mut b: impl bytes::BufMut) -> Result<(), Self::Error> { if b.remaining_mut() < 4 { return Err(BroadcastsDisabledError) } b.put_u32(m.id().0); Ok(()) }
    fn decode_member(&mut self, mut b: impl bytes::Buf) -> Result<Member<Wide>, Self::Error> { Ok(Member::alive(Wide(b.get_u32()))) }
}
#[test]
fn c06_feed_count_fits_u16() {
    let mut c = cfg();
    c.max_packet_size = NonZeroUsize::new(1_000_000).unwrap();
    let mut f = Foca::new(Wide(0), c, SmallRng::seed_from_u64(1), WideCodec);
    let mut rt = AccumulatingRuntime::new();
    f.apply_many((1..70_000).map(|x| Member::alive(Wide(x))), false, &mut rt).unwrap();
    let mut d = vec![2u8]; d.extend_from_slice(&90_000u32.to_be_bytes()); d.extend_from_slice(&0u32.to_be_bytes());
    f.handle_data(&d, &mut rt).unwrap();
}
#[test]
fn c13_probe_loop_survives_a_send_error() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(2))].into_iter(), false, &mut rt).unwrap();
    let token = tok(&timers(&mut rt));
    let mut c = cfg();
    c.max_packet_size = NonZeroUsize::new(1).unwrap();
    f.set_config(c).unwrap();
    assert!(f.handle_timer(Timer::ProbeRandomMember(token), &mut rt).is_err());
    assert!(timers(&mut rt).iter().any(|t| matches!(t, Timer::ProbeRandomMember(_))), "probe loop lost");
}
#[test]
fn c08_stale_suspicion_at_max_incarnation() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(2)), Member::new(id(1), Incarnation::MAX - 1, State::Suspect)].into_iter(), false, &mut rt).unwrap();
    notes(&mut rt);
    f.apply_many([Member::new(id(1), 3, State::Suspect)].into_iter(), false, &mut rt).unwrap();
    assert!(notes(&mut rt).is_empty(), "went defunct over a suspicion it had already refuted");
}
#[test]
fn c09_own_address_never_active_after_change() {
    let mut f = node(id(1), cfg());
    let mut rt = AccumulatingRuntime::new();
    f.apply_many([Member::alive(id(2)), Member::alive(id(3))].into_iter(), false, &mut rt).unwrap();
    f.change_identity(idg(2, 1), &mut rt).unwrap();
    assert!(f.iter_members().all(|m| m.id().a != 2));
    assert_eq!(1, f.num_members());
    assert!(notes(&mut rt).contains(&OwnedNotification::MemberDown(id(2))));
}
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
struct Sid(String);
/// KNOWN FINDING (not repaired): fails
#[test]
fn c20_bincode_length_bomb() {
    let mut c = codec();
    let mut d = vec![253u8]; d.extend_from_slice(&[0xff; 8]);
    let r: Result<Header<Sid>, _> = c.decode_header(&d[..]);
    assert!(r.is_err());
}
