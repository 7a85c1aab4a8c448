//! S02 authentication, S04 negotiation, S06 hostile input.
use crate::{net::*, peer, peer::*};
use std::{cell::RefCell, rc::Rc};
use tentacle_secio::{
    crypto::cipher::CipherType, handshake::Config, verif_hooks::KeyAgreement, Digest,
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vcommon::{
    exec::{self, Exec, Stop},
    link::{self, LinkCfg},
    mix, Acc, CheckSpec, Ctx, Rng, Verdict,
};

pub const STEPS: u64 = 3_000_000;

pub fn link_cfg(r: &mut Rng) -> LinkCfg {
    let mut c = if r.chance(1, 2) { LinkCfg::fast() } else { LinkCfg::random(r) };
    if c.chunk < 64 && r.chance(2, 3) {
        c.chunk = 64;
    }
    for_handshake(c)
}

/// Both ends send a message before they read one: the connection has to hold a few hundred
/// bytes, as every real one does.
pub fn for_handshake(mut c: LinkCfg) -> LinkCfg {
    c.cap = c.cap.max(1024);
    c
}

const KA: [KeyAgreement; 3] = [KeyAgreement::EcdhP256, KeyAgreement::EcdhP384, KeyAgreement::X25519];
pub const CT: [CipherType; 3] = [CipherType::Aes128Gcm, CipherType::Aes256Gcm, CipherType::ChaCha20Poly1305];
const DG: [Digest; 2] = [Digest::Sha256, Digest::Sha512];

#[derive(Clone, Debug)]
pub struct Lists {
    pub e: Vec<usize>,
    pub c: Vec<usize>,
    pub h: Vec<usize>,
}

fn sub(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    let k = r.rus(1, n);
    v.truncate(k);
    v
}

impl Lists {
    pub fn random(r: &mut Rng) -> Lists {
        Lists { e: sub(r, 3), c: sub(r, 3), h: sub(r, 2) }
    }
    pub fn apply(&self, c: Config) -> Config {
        let e: Vec<_> = self.e.iter().map(|i| KA[*i]).collect();
        let k: Vec<_> = self.c.iter().map(|i| CT[*i]).collect();
        let h: Vec<_> = self.h.iter().map(|i| DG[*i]).collect();
        c.key_agreements(&e).ciphers(&k).digests(&h)
    }
    pub fn text(&self) -> (String, String, String) {
        let j = |v: &[usize], n: &[&str]| v.iter().map(|i| n[*i]).collect::<Vec<_>>().join(",");
        (j(&self.e, &EXCH), j(&self.c, &CIPH), j(&self.h, &HASH))
    }
    pub fn common(&self, o: &Lists) -> bool {
        let x = |a: &[usize], b: &[usize]| a.iter().any(|i| b.contains(i));
        x(&self.e, &o.e) && x(&self.c, &o.c) && x(&self.h, &o.h)
    }
}

/// Exchange one message in each direction between two real ends.
async fn chat(ex: &mut Exec, a: &mut Option<Stream>, b: &mut Option<Stream>, r: &mut Rng) -> Result<(), String> {
    let (m1, m2) = (r.bytes(40), r.bytes(50));
    let out: Rc<RefCell<Vec<(usize, Result<Vec<u8>, String>)>>> = Rc::new(RefCell::new(vec![]));
    for (i, s, send, want) in vec![
        (0usize, a.take(), m1.clone(), m2.len()),
        (1, b.take(), m2.clone(), m1.len()),
    ] {
        let mut s = match s {
            Some(s) => s,
            None => return Err("stream missing".into()),
        };
        let out = out.clone();
        ex.spawn("chat", async move {
            let f = async {
                s.write_all(&send).await?;
                s.flush().await?;
                let mut v = vec![0u8; want];
                s.read_exact(&mut v).await?;
                Ok::<_, std::io::Error>(v)
            };
            let res = f.await;
            out.borrow_mut().push((i, res.map_err(|e| e.to_string())));
            // keep the connection until the end of the case
            futures::future::pending::<()>().await;
            drop(s);
        });
    }
    ex.run(STEPS, || out.borrow().len() == 2).await;
    let o = out.borrow();
    if o.len() != 2 {
        return Err("a message was not delivered".into());
    }
    for (i, res) in o.iter() {
        match res {
            Ok(v) if v == if *i == 0 { &m2 } else { &m1 } => {}
            Ok(_) => return Err("a message arrived changed".into()),
            Err(e) => return Err(format!("end {} failed: {}", i, e)),
        }
    }
    Ok(())
}

struct ModelRun {
    res: Option<Result<(Done, Offer), Fail>>,
}

/// Real end against the model peer.
async fn real_vs_model(
    r: &mut Rng,
    cfg: &LinkCfg,
    real: Config,
    conf: Conf,
) -> (Exec, Hs, Rc<RefCell<ModelRun>>, Stop) {
    let mut ex = Exec::new(r.fork());
    let (a, m, am, ma) = link::pair(cfg, r);
    ex.actor(Rc::new(am));
    ex.actor(Rc::new(ma));
    let hs = start(&ex, "real", real, a);
    let run = Rc::new(RefCell::new(ModelRun { res: None }));
    let run2 = run.clone();
    ex.spawn("model", async move {
        let mut m = m;
        let res = peer::handshake(&mut m, &conf).await;
        let ok = res.is_ok();
        run2.borrow_mut().res = Some(res);
        if ok {
            futures::future::pending::<()>().await;
        }
        drop(m);
    });
    let st = ex.run(STEPS, || false).await;
    (ex, hs, run, st)
}

// ---------------------------------------------------------------- S04

async fn s04_case(seed: u64) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let cfg = link_cfg(&mut r);
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let la = Lists::random(&mut r);
    let lb = Lists::random(&mut r);
    let mut acc = Acc::default();
    acc.add(impls, 1);
    let common = la.common(&lb);
    acc.nontrivial = true;
    acc.sig = vcommon::hash_str(&format!("{:?}{:?}", la, lb));
    if common {
        acc.add("common_offer", 1);
    } else {
        acc.add("no_common_offer", 1);
    }
    if r.chance(1, 2) {
        acc.add("against_model", 1);
        let mut conf = Conf::new(idb.clone(), &mut r);
        let (mut e, mut c, mut h) = lb.text();
        // names this version does not know must be skipped
        for x in &mut [&mut e, &mut c, &mut h] {
            if r.chance(1, 4) {
                **x = format!("FUTURE-1,{}", x);
                acc.add("unknown_names_offered", 1);
            }
            if r.chance(1, 4) {
                **x = format!("{},OTHER_2", x);
            }
        }
        conf.exch = e;
        conf.ciph = c;
        conf.hash = h;
        let (mut ex, hs, run, st) = real_vs_model(&mut r, &cfg, la.apply(Config::new(ida.pair())), conf).await;
        if st == Stop::Steps {
            return Verdict::Inconclusive("step budget".into());
        }
        let res = run.borrow_mut().res.take();
        let text = hs.borrow().text();
        let out = match (common, res) {
            (true, Some(Ok((d, o)))) => {
                let (ea, ca, ha) = la.text();
                let within = |l: &str, x: &str| l.split(',').any(|y| y == x);
                let (eb, cb, hb) = lb.text();
                if !hs.borrow().ok() {
                    Some(("no-session", format!("offers {:?} and {:?} overlap, the real end reports {}", la, lb, text)))
                } else if !within(&ea, d.exch) || !within(&eb, d.exch) || !within(&ca, d.ciph) || !within(&cb, d.ciph)
                    || !within(&ha, d.hash) || !within(&hb, d.hash)
                {
                    Some(("outside-offer", format!("used {} {} {} with offers {:?} and {:?}", d.exch, d.ciph, d.hash, la, lb)))
                } else if o.exch.join(",") != ea || o.ciph.join(",") != ca || o.hash.join(",") != ha {
                    Some(("offer-changed", format!("configured {:?}, offered {:?} {:?} {:?}", la, o.exch, o.ciph, o.hash)))
                } else {
                    acc.add(&format!("sessions_{}", d.exch), 1);
                    acc.add(&format!("sessions_{}", d.ciph), 1);
                    acc.add(&format!("sessions_{}", d.hash), 1);
                    None
                }
            }
            (true, Some(Err(f))) => Some((
                "no-session",
                format!("offers {:?} and {:?} overlap, but the handshake fails: {:?}, the real end reports {}", la, lb, f, text),
            )),
            (true, None) => Some(("stuck", format!("offers {:?} and {:?}: the handshake does not finish ({})", la, lb, text))),
            (false, _) => {
                if hs.borrow().ok() {
                    Some(("accepted-without-common", format!("offers {:?} and {:?} have no common entry, the real end succeeded", la, lb)))
                } else if text == "waiting" {
                    Some(("no-failure-reported", format!("offers {:?} and {:?} have no common entry, the real end keeps waiting", la, lb)))
                } else {
                    None
                }
            }
        };
        ex.clear();
        return match out {
            Some((k, w)) => Verdict::Violation(k.into(), w),
            None => Verdict::Pass(acc),
        };
    }
    acc.add("real_pairs", 1);
    let mut ex = Exec::new(r.fork());
    let (a, b, ab, ba) = link::pair(&cfg, &mut r);
    ex.actor(Rc::new(ab));
    ex.actor(Rc::new(ba));
    let ha = start(&ex, "a", la.apply(Config::new(ida.pair())), a);
    let hb = start(&ex, "b", lb.apply(Config::new(idb.pair())), b);
    let st = ex.run(STEPS, || false).await;
    if st == Stop::Steps {
        return Verdict::Inconclusive("step budget".into());
    }
    let (ta, tb) = (ha.borrow().text(), hb.borrow().text());
    let what = format!("offers {:?} and {:?}: a reports {}, b reports {}", la, lb, ta, tb);
    if common && (ta != "success" || tb != "success") {
        return Verdict::Violation("no-session".into(), what);
    }
    if !common && (!ta.starts_with("error") || !tb.starts_with("error")) {
        return Verdict::Violation("no-failure-reported".into(), what);
    }
    if common {
        let (mut sa, mut sb) = (stream(&ha), stream(&hb));
        if let Err(e) = chat(&mut ex, &mut sa, &mut sb, &mut r).await {
            return Verdict::Violation("session-unusable".into(), format!("{}; then {}", what, e));
        }
        acc.add("messages_exchanged", 2);
    }
    if seed % 7 == 0 {
        acc.sample = Some(what);
    }
    ex.clear();
    Verdict::Pass(acc)
}

pub fn s04(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which two ends with given preference lists ran the handshake to the end; distinct = pairs of preference lists".into(),
            assumptions: vec!["key pairs and nonces are drawn at random".into()],
            cases: ctx.q(4000, 400_000),
            budget_s: ctx.q(15, 600),
            threads: 8,
            must_see: vec![
                "common_offer", "no_common_offer", "messages_exchanged", "unknown_names_offered",
                "sessions_P-256", "sessions_P-384", "sessions_X25519", "sessions_AES-128-GCM", "sessions_AES-256-GCM",
                "sessions_CHACHA20_POLY1305", "sessions_SHA256", "sessions_SHA512",
            ],
        },
        |seed, _| exec::with_runtime(s04_case(seed)),
    )
}

// ---------------------------------------------------------------- S02

/// An honest session with the same identities, recorded (frames of a, frames of b).
async fn record(ida: &Id, idb: &Id, r: &mut Rng) -> Option<(Vec<Vec<u8>>, Vec<Vec<u8>>)> {
    let mut ex = Exec::new(r.fork());
    let m = mid(&mut ex, &LinkCfg::fast(), r);
    let (a, b, ra, rb, _keep) = m.wire(&ex, pass(), pass());
    let ha = start(&ex, "a", Config::new(ida.pair()), a);
    let hb = start(&ex, "b", Config::new(idb.pair()), b);
    ex.run(STEPS, || false).await;
    if !ha.borrow().ok() || !hb.borrow().ok() {
        return None;
    }
    let out = (ra.borrow().clone(), rb.borrow().clone());
    ex.clear();
    Some(out)
}

#[derive(Clone, Debug)]
enum Alter {
    Flip(usize),
    Cut(usize),
    Append(usize),
    Recorded,
    RecordedOther,
    Reflect,
    Duplicate,
    Skip,
    Field(usize),
    Swap,
}

async fn s02_case(seed: u64) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let cfg = link_cfg(&mut r);
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let mut acc = Acc::default();
    acc.add(impls, 1);
    acc.nontrivial = true;
    match r.below(8) {
        // honest sessions: the reported keys are right
        0 => {
            let mut ex = Exec::new(r.fork());
            let m = mid(&mut ex, &cfg, &mut r);
            let (a, b, ra, rb, _keep) = m.wire(&ex, pass(), pass());
            let la = Lists::random(&mut r);
            let ha = start(&ex, "a", la.apply(Config::new(ida.pair())), a);
            let hb = start(&ex, "b", Config::new(idb.pair()), b);
            if ex.run(STEPS, || false).await == Stop::Steps {
                return Verdict::Inconclusive("step budget".into());
            }
            for (me, h, peer, rec) in &[("a", &ha, &idb, &ra), ("b", &hb, &ida, &rb)] {
                match &*h.borrow() {
                    HsRes::Ok(_, k, e) => {
                        if k.inner_ref() != &peer.pk {
                            return Verdict::Violation("wrong-key".into(), format!("{} reports a key that is not its peer's", me));
                        }
                        let w = rec.borrow();
                        // the ephemeral key reported is the one sent
                        if !w[1].windows(e.len()).any(|x| x == &e[..]) {
                            return Verdict::Violation("wrong-ephemeral".into(), format!("{} reports an ephemeral key it did not send", me));
                        }
                    }
                    x => return Verdict::Violation("honest-failure".into(), format!("honest handshake: {} reports {}", me, x.text())),
                }
            }
            let (mut sa, mut sb) = (stream(&ha), stream(&hb));
            if let Err(e) = chat(&mut ex, &mut sa, &mut sb, &mut r).await {
                return Verdict::Violation("no-shared-session".into(), format!("both ends succeeded, then {}", e));
            }
            acc.add("honest_sessions", 1);
            acc.sig = mix(0, ex.trace);
            ex.clear();
            Verdict::Pass(acc)
        }
        // a node connected to itself
        1 => {
            let mut ex = Exec::new(r.fork());
            let (a, b, ab, ba) = link::pair(&cfg, &mut r);
            ex.actor(Rc::new(ab));
            ex.actor(Rc::new(ba));
            let ha = start(&ex, "a", Config::new(ida.pair()), a);
            let hb = start(&ex, "b", Config::new(ida.pair()), b);
            let model = r.chance(1, 2);
            if model {
                let conf = Conf::new(ida.clone(), &mut r);
                let (mut e2, h, _run, _) = real_vs_model(&mut r, &cfg, Config::new(ida.pair()), conf).await;
                if h.borrow().ok() {
                    return Verdict::Violation("self-connection".into(), "handshake with a peer that uses our own key succeeded".into());
                }
                e2.clear();
            }
            ex.run(STEPS, || false).await;
            if ha.borrow().ok() || hb.borrow().ok() {
                return Verdict::Violation("self-connection".into(), "a node connected to itself completed the handshake".into());
            }
            acc.add("self_connections_refused", 1);
            acc.sig = mix(1, ex.trace);
            ex.clear();
            Verdict::Pass(acc)
        }
        // a peer that departs from the protocol
        2 | 3 => {
            let mut conf = Conf::new(idb.clone(), &mut r);
            let victim = Id::new(&mut r);
            let bit = r.us(4096);
            let k = r.below(17);
            conf.dev = match k {
                0 => Deviate::No,
                1 => Deviate::ClaimOther(victim.pk.clone()),
                2 => Deviate::SignOrderSwapped,
                3 => Deviate::SignWithoutRemote,
                4 => Deviate::SignWithoutEphemeral,
                5 => Deviate::SignOtherEphemeral,
                6 => Deviate::SignOtherNonce,
                7 => Deviate::SignatureFlip(bit),
                8 => Deviate::SignatureEmpty,
                9 => Deviate::EphemeralRandom,
                10 => Deviate::EphemeralShort,
                11 => Deviate::EchoWrong(bit),
                12 => Deviate::EchoShort(bit),
                13 => Deviate::EchoEmpty,
                14 => Deviate::EchoOurOwn,
                15 => Deviate::EchoUnderWrongKey,
                _ => {
                    let c0 = Conf::new(idb.clone(), &mut r);
                    let (mut e0, _h, run, _) = real_vs_model(&mut r, &LinkCfg::fast(), Config::new(ida.pair()), c0).await;
                    let res = run.borrow_mut().res.take();
                    e0.clear();
                    match res {
                        Some(Ok((d, _))) => Deviate::Replay(d.sent.0, d.sent.1),
                        _ => return Verdict::Inconclusive("no session to record".into()),
                    }
                }
            };
            let dev = conf.dev.clone();
            let l = Lists::random(&mut r);
            let (mut ex, hs, run, st) = real_vs_model(&mut r, &cfg, l.apply(Config::new(ida.pair())), conf).await;
            if st == Stop::Steps {
                return Verdict::Inconclusive("step budget".into());
            }
            let name = format!("{:?}", dev);
            let name = name.split('(').next().unwrap_or("").to_owned();
            let ok = hs.borrow().ok();
            if dev == Deviate::No {
                match &*hs.borrow() {
                    HsRes::Ok(_, key, e) => {
                        if key.inner_ref() != &idb.pk {
                            return Verdict::Violation("wrong-key".into(), "the reported key is not the peer's".into());
                        }
                        if let Some(Ok((d, _))) = &run.borrow().res {
                            if &d.remote_epub != e {
                                return Verdict::Violation("wrong-ephemeral".into(), "the reported ephemeral key is not the one sent".into());
                            }
                            if d.remote_key != ida.pk {
                                return Verdict::Violation("wrong-key".into(), "the real end presented a key that is not its own".into());
                            }
                        }
                    }
                    x => {
                        return Verdict::Violation(
                            "honest-failure".into(),
                            format!("a peer that follows the protocol is refused: {}; {:?}", x.text(), run.borrow().res.as_ref().map(|x| x.is_ok())),
                        )
                    }
                }
                acc.add("honest_sessions", 1);
            } else if ok {
                return Verdict::Violation(format!("accepted-{}", name), format!("handshake succeeded although the peer did: {:?}", dev));
            } else {
                acc.add("deviations_refused", 1);
                acc.add(&format!("dev_{}", name), 1);
            }
            acc.sig = mix(10 + k, bit as u64);
            ex.clear();
            Verdict::Pass(acc)
        }
        // the party in the middle alters one message
        _ => {
            let (other_a, other_b) = match record(&ida, &idb, &mut r).await {
                Some(x) => x,
                None => return Verdict::Inconclusive("recording failed".into()),
            };
            let mut ex = Exec::new(r.fork());
            let m = mid(&mut ex, &cfg, &mut r);
            let at = r.us(3);
            // frame `at` of b is altered on its way to a
            let pos = r.us(1 << 16);
            let alter = match r.below(13) {
                0..=3 => Alter::Flip(pos),
                4 => Alter::Cut(pos),
                5 => Alter::Append(pos),
                6 => Alter::Recorded,
                7 => Alter::RecordedOther,
                8 => Alter::Reflect,
                9 => Alter::Duplicate,
                10 => Alter::Skip,
                11 => Alter::Swap,
                _ => Alter::Field(pos),
            };
            let third = Id::new(&mut r);
            let junk = r.bytes(1 + pos % 40);
            let al = alter.clone();
            let ra_seen: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(vec![]));
            let ra2 = ra_seen.clone();
            let changed = Rc::new(RefCell::new(false));
            let ch = changed.clone();
            let mut held: Option<Vec<u8>> = None;
            let ba: Op = Box::new(move |n, body| {
                if n == at + 1 {
                    if let Some(h) = held.take() {
                        return vec![Piece::Frame(body), Piece::Frame(h)];
                    }
                }
                if n != at {
                    return vec![Piece::Frame(body)];
                }
                *ch.borrow_mut() = true;
                let mut x = body.clone();
                match &al {
                    Alter::Flip(p) => {
                        let p = p % (x.len() * 8);
                        x[p / 8] ^= 1 << (p % 8);
                    }
                    Alter::Cut(p) => {
                        let n = p % x.len();
                        x.truncate(n);
                    }
                    Alter::Append(_) => x.extend_from_slice(&junk),
                    Alter::Recorded => x = other_b[n].clone(),
                    Alter::RecordedOther => x = other_a[n].clone(),
                    Alter::Reflect => match ra2.borrow().get(n) {
                        Some(y) => x = y.clone(),
                        None => x.clear(),
                    },
                    Alter::Duplicate => {
                        if n == 2 {
                            // a second echo comes after the handshake
                            *ch.borrow_mut() = false;
                        }
                        return vec![Piece::Frame(x.clone()), Piece::Frame(x)];
                    }
                    Alter::Skip => return vec![],
                    Alter::Swap => {
                        held = Some(x);
                        return vec![];
                    }
                    Alter::Field(p) => {
                        if n == 0 {
                            if let Some(f) = untable(&x, 5) {
                                let s = |i: usize| String::from_utf8_lossy(&f[i]).to_string();
                                x = match p % 5 {
                                    0 => enc_propose(&f[0], &third.pk, &s(2), &s(3), &s(4)),
                                    1 => enc_propose(&f[0], &dec_key(&f[1]).unwrap_or_default(), "P-256", &s(3), &s(4)),
                                    2 => enc_propose(&f[0], &dec_key(&f[1]).unwrap_or_default(), &s(2), "AES-128-GCM", &s(4)),
                                    3 => enc_propose(&f[0], &dec_key(&f[1]).unwrap_or_default(), &s(2), &s(3), "SHA256"),
                                    _ => enc_propose(&f[0][1..], &dec_key(&f[1]).unwrap_or_default(), &s(2), &s(3), &s(4)),
                                };
                            }
                        } else if n == 1 {
                            if let Some(f) = untable(&x, 2) {
                                // another ephemeral key with the old signature, or a signature by someone else
                                x = if p % 2 == 0 {
                                    match untable(&other_b[1], 2) {
                                        Some(g) if g[0].len() == f[0].len() => enc_exchange(&g[0], &f[1]),
                                        _ => enc_exchange(&f[0], &third.sign(&f[0])),
                                    }
                                } else {
                                    enc_exchange(&f[0], &third.sign(&f[0]))
                                };
                            }
                        } else {
                            x.reverse();
                        }
                    }
                }
                // an encoding may leave room for bytes without meaning; what the exchange says is signed
                let same = n == 1 && untable(&x, 2).map_or(false, |f| untable(&body, 2).as_ref() == Some(&f));
                if x == body || same {
                    *ch.borrow_mut() = false;
                }
                vec![Piece::Frame(x)]
            });
            let ra3 = ra_seen.clone();
            let ab: Op = Box::new(move |_, b| {
                ra3.borrow_mut().push(b.clone());
                vec![Piece::Frame(b)]
            });
            let (a, b, _ra, _rb, keep) = m.wire(&ex, ab, ba);
            let ha = start(&ex, "a", Config::new(ida.pair()), a);
            let hb = start(&ex, "b", Config::new(idb.pair()), b);
            if ex.run(STEPS, || false).await == Stop::Steps {
                return Verdict::Inconclusive("step budget".into());
            }
            let what = format!("message {} of b altered on the way to a ({:?}): a reports {}, b reports {}", at, alter, ha.borrow().text(), hb.borrow().text());
            let (oka, okb) = (ha.borrow().ok(), hb.borrow().ok());
            let altered = *changed.borrow();
            // up to its second copy of the exchange, a took part as it should
            let seen_late = match alter {
                Alter::Duplicate => at >= 1,
                _ => at >= 2,
            };
            if altered && (oka || (okb && !seen_late)) {
                return Verdict::Violation(format!("altered-accepted-{}", at), what);
            }
            for (h, id) in &[(&ha, &idb), (&hb, &ida)] {
                if let HsRes::Ok(_, k, _) = &*h.borrow() {
                    if k.inner_ref() != &id.pk {
                        return Verdict::Violation("wrong-key".into(), what);
                    }
                }
            }
            if altered {
                acc.add(&format!("alterations_of_message_{}", at), 1);
            } else {
                acc.nontrivial = false;
            }
            acc.sig = mix(vcommon::hash_str(&format!("{:?}{}", alter, at)), 77);
            if seed % 50 == 0 {
                acc.sample = Some(what);
            }
            drop(keep);
            ex.clear();
            Verdict::Pass(acc)
        }
    }
}

pub fn s02(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which a handshake was altered, replayed or departed from the protocol and the outcome at both ends was judged; distinct = kind and position of the interference".into(),
            assumptions: vec!["the adversary does not hold the private keys of the honest ends".into()],
            cases: ctx.q(4000, 400_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: vec![
                "honest_sessions", "self_connections_refused", "deviations_refused", "alterations_of_message_0",
                "alterations_of_message_1", "alterations_of_message_2", "dev_ClaimOther", "dev_Replay", "dev_EchoShort",
                "dev_EchoEmpty", "dev_SignWithoutRemote", "dev_SignOtherEphemeral",
            ],
        },
        |seed, _| exec::with_runtime(s02_case(seed)),
    )
}

// ---------------------------------------------------------------- S06

fn mutate(d: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.rus(1, 4) {
        if d.is_empty() {
            d.push(r.next() as u8);
            continue;
        }
        let n = d.len();
        match r.below(7) {
            0 => {
                let i = r.us(n);
                d[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.us(n);
                d[i] = r.next() as u8;
            }
            2 => d.truncate(r.us(n)),
            3 => {
                let k = r.us(40);
                let x = r.bytes(k);
                d.extend(x);
            }
            4 => {
                // an interesting 32 bit value on a field boundary
                let i = (r.us(n) / 4) * 4;
                let v = *r.pick(&[0u32, 1, 3, 4, 24, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, u32::MAX, n as u32, n as u32 + 1]);
                for (k, b) in v.to_le_bytes().iter().enumerate() {
                    if i + k < n {
                        d[i + k] = *b;
                    }
                }
            }
            5 => {
                let i = r.us(n);
                let x = d[i..].to_vec();
                d.extend(x);
            }
            _ => {
                let i = r.us(n);
                d.remove(i);
            }
        }
    }
}

fn raw_bytes(d: Vec<u8>, r: &mut Rng, limit: usize) -> Vec<u8> {
    let mut f = frame(&d);
    match r.below(12) {
        0 => {
            let v = *r.pick(&[0u32, 1, 0x7fff_ffff, u32::MAX, limit as u32, limit as u32 + 1, limit as u32 - 1, 1 << 22, 1 << 24]);
            f[..4].copy_from_slice(&v.to_be_bytes());
        }
        1 => {
            let n = r.us(f.len() + 1);
            f.truncate(n);
        }
        _ => {}
    }
    f
}

async fn s06_case(seed: u64) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let cfg = link_cfg(&mut r);
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let mut acc = Acc::default();
    acc.add(impls, 1);
    acc.nontrivial = true;
    let limit = *r.pick(&[300usize, 1000, 5000, 70_000]);
    let conf_real = Config::new(ida.pair()).max_frame_length(limit);
    let mode = r.below(4);
    crate::alloc_reset();
    if mode == 3 {
        // a finished session fed arbitrary frames
        let mut conf = Conf::new(idb.clone(), &mut r);
        conf.dev = Deviate::No;
        let mut ex = Exec::new(r.fork());
        let (a, m, am, ma) = link::pair(&cfg, &mut r);
        ex.actor(Rc::new(am));
        ex.actor(Rc::new(ma.clone()));
        let hs = start(&ex, "real", conf_real, a);
        let mut r2 = r.fork();
        let hostile: Rc<RefCell<u64>> = Rc::new(RefCell::new(0));
        let h2 = hostile.clone();
        ex.spawn("model", async move {
            let mut m = m;
            if let Ok((mut d, _)) = peer::handshake(&mut m, &conf).await {
                for _ in 0..r2.rus(1, 4) {
                    let n = r2.size(200);
                    let junk = r2.bytes(n);
                    let mut body = match r2.below(4) {
                        0 => junk,
                        1 => {
                            let mut b = d.tx.seal(&junk);
                            let before = b.clone();
                            mutate(&mut b, &mut r2);
                            if b == before {
                                b.push(0);
                            }
                            b
                        }
                        // a valid frame at the wrong place
                        2 => {
                            d.tx.n += 1;
                            d.tx.seal(&junk)
                        }
                        _ => vec![0; r2.us(17)],
                    };
                    if body.len() > limit {
                        body.truncate(limit);
                    }
                    let b = raw_bytes(body, &mut r2, limit);
                    *h2.borrow_mut() += 1;
                    if m.write_all(&b).await.is_err() || m.flush().await.is_err() {
                        break;
                    }
                }
                if r2.chance(1, 2) {
                    let _ = m.shutdown().await;
                }
                futures::future::pending::<()>().await;
            }
            drop(m);
        });
        ex.run(STEPS, || hs.borrow().ok()).await;
        let s = stream(&hs);
        let mut s = match s {
            Some(s) => s,
            None => return Verdict::Violation("honest-failure".into(), format!("the handshake before the hostile frames: {}", hs.borrow().text())),
        };
        let got: Rc<RefCell<(u64, Option<String>)>> = Rc::new(RefCell::new((0, None)));
        let g = got.clone();
        let mut r3 = r.fork();
        ex.spawn("reader", async move {
            let mut b = vec![0u8; r3.rus(1, 400)];
            // also after the first error
            for _ in 0..20 {
                match s.read(&mut b).await {
                    Ok(n) => {
                        let mut x = g.borrow_mut();
                        if x.1.is_none() {
                            x.0 += n as u64
                        }
                    }
                    Err(e) => {
                        let mut x = g.borrow_mut();
                        if x.1.is_none() {
                            x.1 = Some(e.to_string());
                        }
                    }
                }
            }
            drop(s);
        });
        let st = ex.run(STEPS, || false).await;
        let peak = crate::alloc_peak();
        if got.borrow().0 > 0 {
            return Verdict::Violation("hostile-data".into(), format!("{} bytes were delivered from frames the peer never sealed for this place", got.borrow().0));
        }
        if st == Stop::Steps {
            return Verdict::Inconclusive("step budget".into());
        }
        if peak > 6 * limit + 3_000_000 {
            return Verdict::Violation("memory".into(), format!("{} bytes allocated at the peak with a frame limit of {}", peak, limit));
        }
        acc.add("hostile_frames_after_handshake", *hostile.borrow());
        if got.borrow().1.is_some() {
            acc.add("read_errors", 1);
        }
        acc.max("peak_kib", peak as u64 / 1024);
        acc.sig = mix(seed, 3);
        ex.clear();
        return Verdict::Pass(acc);
    }
    // the script of a hostile peer, which reads nothing but the frames it needs
    let mut ex = Exec::new(r.fork());
    let (a, m, am, ma) = link::pair(&cfg, &mut r);
    ex.actor(Rc::new(am));
    ex.actor(Rc::new(ma.clone()));
    let hs = start(&ex, "real", conf_real, a);
    let mut r2 = r.fork();
    let keep_open = r.chance(1, 2);
    let sent: Rc<RefCell<u64>> = Rc::new(RefCell::new(0));
    let sent2 = sent.clone();
    let exref: Rc<RefCell<u64>> = Rc::new(RefCell::new(0));
    let deep = exref.clone();
    ex.spawn("hostile", async move {
        let mut m = m;
        let mut out: Vec<Vec<u8>> = vec![];
        match mode {
            // bytes without structure
            0 => {
                for _ in 0..r2.rus(1, 6) {
                    let n = r2.size(2000);
                    let mut b = r2.bytes(n);
                    if b.len() >= 4 && r2.chance(1, 2) {
                        b[0] = 0;
                        b[1] = 0;
                    }
                    out.push(b);
                }
            }
            // a damaged proposition, then anything
            1 => {
                let long = "A,".repeat(r2.us(200));
                let e = if r2.chance(1, 4) { long } else { EXCH.join(",") };
                let nl = *r2.pick(&[0usize, 1, 16, 17, 200]);
                let rand = r2.bytes(nl);
                let kl = *r2.pick(&[0usize, 1, 33, 65]);
                let key = if r2.chance(1, 2) { idb.pk.clone() } else { r2.bytes(kl) };
                let mut p = enc_propose(&rand, &key, &e, &CIPH.join(","), &HASH.join(","));
                if r2.chance(4, 5) {
                    mutate(&mut p, &mut r2);
                }
                out.push(raw_bytes(p, &mut r2, limit));
                for _ in 0..r2.us(4) {
                    let n = r2.size(300);
                    let b = r2.bytes(n);
                    out.push(raw_bytes(b, &mut r2, limit));
                }
            }
            // a valid proposition, then a damaged or wrong exchange, then junk
            _ => {
                let rand = r2.bytes(16);
                let p = enc_propose(&rand, &idb.pk, &EXCH.join(","), &CIPH.join(","), &HASH.join(","));
                if write_frame(&mut m, &p).await.is_err() {
                    return;
                }
                let theirs = match read_frame(&mut m).await {
                    Ok(x) => x,
                    Err(_) => return,
                };
                let ex1 = match read_frame(&mut m).await {
                    Ok(x) => x,
                    Err(_) => return,
                };
                let el = untable(&ex1, 2).map(|x| x[0].len()).unwrap_or(32);
                let mut ep = match r2.below(5) {
                    0 => vec![0; el],
                    1 => {
                        let n = r2.us(120);
                        r2.bytes(n)
                    }
                    2 => untable(&ex1, 2).map(|x| x[0].clone()).unwrap_or_default(),
                    _ => r2.bytes(el),
                };
                if el > 32 && !ep.is_empty() && r2.chance(1, 2) {
                    ep[0] = 4;
                }
                // correctly signed, so that the key agreement code sees the key
                let sig = idb.sign(&[&p[..], &theirs[..], &ep[..]].concat());
                let mut x = enc_exchange(&ep, &sig);
                if r2.chance(1, 2) {
                    mutate(&mut x, &mut r2);
                } else {
                    *deep.borrow_mut() = 1;
                }
                out.push(raw_bytes(x, &mut r2, limit));
                for _ in 0..r2.us(4) {
                    let n = r2.size(300);
                    let b = r2.bytes(n);
                    out.push(raw_bytes(b, &mut r2, limit));
                }
            }
        }
        for b in out {
            *sent2.borrow_mut() += b.len() as u64;
            if m.write_all(&b).await.is_err() || m.flush().await.is_err() {
                break;
            }
        }
        if keep_open {
            futures::future::pending::<()>().await;
        }
        drop(m);
    });
    let st = ex.run(STEPS, || false).await;
    let peak = crate::alloc_peak();
    let text = hs.borrow().text();
    if hs.borrow().ok() {
        return Verdict::Violation("accepted".into(), "the handshake succeeded with a peer that sent junk".into());
    }
    if st == Stop::Steps {
        return Verdict::Inconclusive("step budget".into());
    }
    if !keep_open && text == "waiting" {
        return Verdict::Violation("no-end".into(), "the peer sent junk and closed the connection, the handshake still waits".into());
    }
    // what the handshake itself needs is small; the links are bounded by the script
    let bound = 6 * limit + 1_500_000 + 20 * (*sent.borrow() as usize);
    if peak > bound {
        return Verdict::Violation("memory".into(), format!("{} bytes allocated at the peak with a frame limit of {} and {} bytes received", peak, limit, sent.borrow()));
    }
    acc.max("peak_kib", peak as u64 / 1024);
    acc.add("hostile_bytes", *sent.borrow());
    acc.add("signed_bad_ephemeral_keys", *exref.borrow());
    if text == "waiting" {
        acc.add("still_waiting", 1);
    } else {
        acc.add("errors", 1);
        acc.add(&format!("error_{}", text.split(|c: char| !c.is_alphanumeric()).nth(1).unwrap_or("")), 1);
    }
    acc.sig = mix(seed, mode);
    ex.clear();
    Verdict::Pass(acc)
}

pub fn s06(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which a real end was given hostile bytes and its result was judged; distinct = scripts (each case has its own bytes)".into(),
            assumptions: vec!["memory is judged at the peak of bytes allocated on the thread of the case".into()],
            cases: ctx.q(12_000, 2_000_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: vec!["errors", "still_waiting", "hostile_frames_after_handshake", "read_errors", "signed_bad_ephemeral_keys", "hostile_bytes"],
        },
        |seed, _| exec::with_runtime(s06_case(seed)),
    )
}
