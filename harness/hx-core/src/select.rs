//! Both halves of the protocol negotiation over an in-memory connection.
use bytes::{Bytes, BytesMut};
use futures::{SinkExt, StreamExt};
use std::{cell::RefCell, collections::HashMap, rc::Rc};
use tentacle::{
    protocol_select::{select_version, ProtocolInfo, SelectFn},
    verif_hooks::{client_select, server_select},
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vcommon::{
    exec::{with_runtime, Exec, Stop},
    link::{self, LinkCfg},
    mix,
    report::Verdict,
    Acc, Rng,
};

const STEPS: u64 = 400_000;

fn bad<T>(k: &str, w: String) -> Result<T, Verdict> {
    Err(Verdict::Violation(k.into(), w))
}

fn version(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "ü\u{1F600}".into(),
        2 => (0..r.rus(1, 300)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        3 => format!("{}", r.below(30)),
        _ => format!("{}.{}.{}", r.below(3), r.below(4), r.below(12)),
    }
}

fn versions(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|_| version(r)).collect();
    v.sort();
    if r.chance(9, 10) {
        v.dedup();
    }
    v
}

fn name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "/p2p/é/0".into(),
        2 => (0..r.rus(1, 2_000)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        _ => format!("/proto/{}", r.below(6)),
    }
}

/// highest common one, by looking at all pairs
fn want(a: &[String], b: &[String]) -> Option<String> {
    let mut best: Option<&String> = None;
    for x in a {
        for y in b {
            if x == y && best.map_or(true, |z| x.as_bytes() > z.as_bytes()) {
                best = Some(x);
            }
        }
    }
    best.cloned()
}

fn frame(d: &[u8]) -> Vec<u8> {
    let mut v = (d.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(d);
    v
}

fn frames(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = r.rus(0, 4);
    (0..n)
        .map(|_| {
            let k = r.size(3_000);
            r.bytes(k)
        })
        .collect()
}

#[derive(Default)]
struct End1 {
    res: Option<Result<(String, Option<String>), String>>,
    got: Vec<Vec<u8>>,
    done: bool,
}

pub fn case(seed: u64, idx: u64) -> Verdict {
    let r = match idx % 8 {
        0 => pure(seed),
        1 => with_runtime(hostile(seed)),
        2 => with_runtime(raw_client(seed)),
        _ => with_runtime(both(seed)),
    };
    match r {
        Ok(v) | Err(v) => v,
    }
}

/// encoding and selection without a connection
fn pure(seed: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    for _ in 0..20 {
        let k = r.rus(0, 9);
        let i = ProtocolInfo::new(&name(&mut r), versions(&mut r, k));
        let e = i.clone().encode();
        match ProtocolInfo::decode(&e) {
            Some(d) if d == i => acc.add("round_trips", 1),
            d => return bad("round-trip", format!("{:?} decodes to {:?}", i, d)),
        }
        // damaged messages: any result, but never a message that does not mean itself
        let mut b = e.to_vec();
        match r.below(3) {
            0 if !b.is_empty() => {
                let n = r.us(b.len());
                b.truncate(n)
            }
            1 if !b.is_empty() => {
                let n = r.us(b.len());
                b[n] ^= 1 << r.below(8);
            }
            _ => {
                let n = r.size(200);
                b = r.bytes(n)
            }
        }
        if let Some(d) = ProtocolInfo::decode(&b) {
            acc.add("damaged_accepted", 1);
            if ProtocolInfo::decode(&d.clone().encode()).as_ref() != Some(&d) {
                return bad("round-trip", format!("{:?} does not survive encoding", d));
            }
        }
        let (k, l) = (r.rus(0, 8), r.rus(0, 8));
        let (a, b) = (versions(&mut r, k), versions(&mut r, l));
        if select_version(&a, &b) != want(&a, &b) {
            return bad("selection", format!("{:?} and {:?} select {:?}", a, b, select_version(&a, &b)));
        }
        // other element types
        let (mut a, mut b): (Vec<u8>, Vec<u8>) = ((0..k).map(|_| r.below(20) as u8).collect(), (0..l).map(|_| r.below(20) as u8).collect());
        a.sort();
        b.sort();
        let w = a.iter().filter(|x| b.contains(x)).max().cloned();
        if select_version(&a, &b) != w {
            return bad("selection", format!("{:?} and {:?} select {:?}", a, b, select_version(&a, &b)));
        }
    }
    acc.sig = seed;
    acc.nontrivial = true;
    Ok(Verdict::Pass(acc))
}

/// names known to the accepting side
fn table(r: &mut Rng, mine: &str, known: bool) -> HashMap<String, Vec<String>> {
    let mut t = HashMap::new();
    for _ in 0..r.below(5) {
        let n = name(r);
        let k = r.rus(0, 6);
        t.insert(n, versions(r, k));
    }
    if known {
        let k = r.rus(0, 7);
        t.insert(mine.to_owned(), versions(r, k));
    } else {
        t.remove(mine);
    }
    t
}

fn infos(t: &HashMap<String, Vec<String>>, custom: bool) -> HashMap<String, (ProtocolInfo, Option<SelectFn<String>>)> {
    t.iter()
        .map(|(n, v)| {
            let f: Option<SelectFn<String>> = if custom {
                // the lowest common one
                Some(Box::new(|a: &[String], b: &[String]| a.iter().find(|x| b.contains(x)).cloned()))
            } else {
                None
            };
            (n.clone(), (ProtocolInfo::new(n, v.clone()), f))
        })
        .collect()
}

fn expected(t: &HashMap<String, Vec<String>>, n: &str, offer: &[String], custom: bool) -> Option<String> {
    t.get(n).and_then(|v| if custom { v.iter().find(|x| offer.contains(x)).cloned() } else { want(v, offer) })
}

async fn both(seed: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    let n = name(&mut r);
    let known = r.chance(4, 5);
    let t = table(&mut r, &n, known);
    let mut offer = {
        let k = r.rus(0, 7);
        versions(&mut r, k)
    };
    if r.chance(2, 3) {
        // something in common
        if let Some(v) = t.get(&n) {
            for x in v {
                if r.chance(1, 3) {
                    offer.push(x.clone());
                }
            }
            offer.sort();
        }
    }
    let custom = r.chance(1, 5);
    let exp = expected(&t, &n, &offer, custom);
    let mut cfg = LinkCfg::random(&mut r);
    // both ends write before they read
    cfg.cap = cfg.cap.max(1 << 16);
    let mut ex = Exec::new(r.fork());
    let (a, b, ab, ba) = link::pair(&cfg, &mut r);
    ex.actor(Rc::new(ab));
    ex.actor(Rc::new(ba));
    let (ca, cb) = (Rc::new(RefCell::new(End1::default())), Rc::new(RefCell::new(End1::default())));
    let (fa, fb) = (frames(&mut r), frames(&mut r));
    {
        let (c, send, expect, info) = (ca.clone(), fa.clone(), fb.len(), ProtocolInfo::new(&n, offer.clone()));
        ex.spawn("client", async move {
            match client_select(a, info).await {
                Ok((mut s, name, v)) => {
                    c.borrow_mut().res = Some(Ok((name, v)));
                    for f in send {
                        let _ = s.send(Bytes::from(f)).await;
                    }
                    for _ in 0..expect {
                        match s.next().await {
                            Some(Ok(f)) => c.borrow_mut().got.push(f.to_vec()),
                            _ => break,
                        }
                    }
                    c.borrow_mut().done = true;
                    futures::future::pending::<()>().await;
                }
                Err(e) => c.borrow_mut().res = Some(Err(e.to_string())),
            }
        });
        let (c, send, expect, tab) = (cb.clone(), fb.clone(), fa.len(), infos(&t, custom));
        ex.spawn("server", async move {
            match server_select(b, tab).await {
                Ok((mut s, name, v)) => {
                    c.borrow_mut().res = Some(Ok((name, v)));
                    for f in send {
                        let _ = s.send(Bytes::from(f)).await;
                    }
                    for _ in 0..expect {
                        match s.next().await {
                            Some(Ok(f)) => c.borrow_mut().got.push(f.to_vec()),
                            _ => break,
                        }
                    }
                    c.borrow_mut().done = true;
                    futures::future::pending::<()>().await;
                }
                Err(e) => c.borrow_mut().res = Some(Err(e.to_string())),
            }
        });
    }
    let st = ex.run(STEPS, || ca.borrow().done && cb.borrow().done).await;
    if st == Stop::Steps {
        return Ok(Verdict::Inconclusive("step budget".into()));
    }
    let what = || format!("name {:?}, offer {:?}, table {:?}: expected {:?}", n, offer, t.get(&n), exp);
    for (side, c, f) in &[("opening", &ca, &fb), ("accepting", &cb, &fa)] {
        let c = c.borrow();
        match &c.res {
            None => return bad("hang", format!("{} side never finishes; {}", side, what())),
            Some(Err(e)) => return bad("refused", format!("{} side fails with {}; {}", side, e, what())),
            Some(Ok((m, v))) => {
                if *m != n || *v != exp {
                    return bad("version", format!("{} side reports {:?} {:?}; {}", side, m, v, what()));
                }
            }
        }
        if c.got != **f {
            return bad("data", format!("{} side received {} of {} frames that follow, or different ones; {}", side, c.got.len(), f.len(), what()));
        }
        acc.add("following_frames", f.len() as u64);
    }
    if exp.is_some() {
        acc.add("agreed", 1);
        if exp.as_ref() != offer.last() || exp.as_ref() != t[&n].last() {
            acc.add("choice_below_top", 1);
        }
    } else if known {
        acc.add("no_common", 1)
    } else {
        acc.add("unknown_name", 1)
    }
    acc.add("custom_select", custom as u64);
    acc.sig = mix(ex.trace, seed);
    acc.nontrivial = true;
    if seed % 2_000 < 5 {
        acc.sample = Some(what());
    }
    ex.clear();
    Ok(Verdict::Pass(acc))
}

/// a peer that sends its proposal and data in one go, and that reads the answer itself
async fn raw_client(seed: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    let n = name(&mut r);
    let known = r.chance(4, 5);
    let t = table(&mut r, &n, known);
    let offer: Vec<String> = t.get(&n).map(|v| v.iter().filter(|_| r.chance(1, 2)).cloned().collect()).unwrap_or_default();
    let exp = expected(&t, &n, &offer, false);
    let mut cfg = LinkCfg::random(&mut r);
    cfg.cap = cfg.cap.max(1 << 16);
    let mut ex = Exec::new(r.fork());
    let (mut a, b, ab, ba) = link::pair(&cfg, &mut r);
    ex.actor(Rc::new(ab));
    ex.actor(Rc::new(ba));
    let data = frames(&mut r);
    let mut out = frame(&ProtocolInfo::new(&n, offer.clone()).encode());
    for f in &data {
        out.extend(frame(f));
    }
    let answer = Rc::new(RefCell::new(None));
    let srv = Rc::new(RefCell::new(End1::default()));
    {
        let ans = answer.clone();
        ex.spawn("peer", async move {
            if a.write_all(&out).await.is_err() || a.flush().await.is_err() {
                return;
            }
            let mut l = [0u8; 4];
            if a.read_exact(&mut l).await.is_err() {
                return;
            }
            let mut v = BytesMut::new();
            v.resize(u32::from_be_bytes(l) as usize, 0);
            if a.read_exact(&mut v).await.is_ok() {
                *ans.borrow_mut() = Some(v);
            }
            futures::future::pending::<()>().await;
        });
        let (c, tab, k) = (srv.clone(), infos(&t, false), data.len());
        ex.spawn("server", async move {
            match server_select(b, tab).await {
                Ok((mut s, name, v)) => {
                    c.borrow_mut().res = Some(Ok((name, v)));
                    for _ in 0..k {
                        match s.next().await {
                            Some(Ok(f)) => c.borrow_mut().got.push(f.to_vec()),
                            _ => break,
                        }
                    }
                    c.borrow_mut().done = true;
                    futures::future::pending::<()>().await;
                }
                Err(e) => c.borrow_mut().res = Some(Err(e.to_string())),
            }
        });
    }
    let st = ex.run(STEPS, || srv.borrow().done && answer.borrow().is_some()).await;
    if st == Stop::Steps {
        return Ok(Verdict::Inconclusive("step budget".into()));
    }
    let c = srv.borrow();
    let what = || format!("name {:?}, offer {:?}, table {:?}: expected {:?}, accepting side {:?}", n, offer, t.get(&n), exp, c.res);
    match &c.res {
        Some(Ok((m, v))) if *m == n && *v == exp => {}
        _ => return bad("version", what()),
    }
    if c.got != data {
        return bad("data", format!("{} of {} frames sent along with the proposal arrive; {}", c.got.len(), data.len(), what()));
    }
    let ans = answer.borrow();
    let d = ans.as_ref().and_then(|a| ProtocolInfo::decode(a));
    match d {
        Some(i) if i.name == n && i.support_versions == exp.iter().cloned().collect::<Vec<_>>() => {}
        d => return bad("answer", format!("the answer on the wire is {:?}; {}", d, what())),
    }
    acc.add("pipelined_frames", data.len() as u64);
    acc.sig = mix(ex.trace, seed);
    acc.nontrivial = true;
    ex.clear();
    Ok(Verdict::Pass(acc))
}

/// broken or missing messages end in an error on the side that gets them
async fn hostile(seed: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    let n = "/proto/1".to_owned();
    let good = frame(&ProtocolInfo::new(&n, vec!["1".into(), "2".into()]).encode());
    let (out, must_fail) = match r.below(5) {
        0 => {
            // cut short
            let k = r.us(good.len());
            (good[..k].to_vec(), true)
        }
        1 => {
            let k = r.size(300);
            let junk = r.bytes(k);
            let valid = ProtocolInfo::decode(&junk).is_some();
            (frame(&junk), !valid)
        }
        2 => (vec![0xff, 0xff, 0xff, 0xff, 1, 2, 3], true),
        3 => (frame(&[]), true),
        _ => {
            let mut g = good.clone();
            let k = r.rus(4, g.len() - 1);
            g[k] ^= 1 << r.below(8);
            let valid = ProtocolInfo::decode(&g[4..]).is_some();
            (g, !valid)
        }
    };
    let server = r.chance(1, 2);
    let mut cfg = LinkCfg::random(&mut r);
    // both ends write before they read
    cfg.cap = cfg.cap.max(1 << 16);
    let mut ex = Exec::new(r.fork());
    let (mut a, b, ab, ba) = link::pair(&cfg, &mut r);
    ex.actor(Rc::new(ab.clone()));
    ex.actor(Rc::new(ba));
    let res = Rc::new(RefCell::new(None));
    {
        let c = res.clone();
        let mut t = HashMap::new();
        t.insert(n.clone(), vec!["1".to_owned(), "2".to_owned()]);
        let n2 = n.clone();
        ex.spawn("side", async move {
            let x = if server {
                server_select(b, infos(&t, false)).await
            } else {
                client_select(b, ProtocolInfo::new(&n2, vec!["1".into(), "2".into()])).await
            };
            *c.borrow_mut() = Some(x.map(|x| (x.1, x.2)).map_err(|e| e.to_string()));
        });
        let o = out.clone();
        ex.spawn("peer", async move {
            let _ = a.write_all(&o).await;
            let _ = a.flush().await;
            let _ = a.shutdown().await;
            let mut v = Vec::new();
            let _ = a.read_to_end(&mut v).await;
        });
    }
    let st = ex.run(STEPS, || false).await;
    if st == Stop::Steps {
        return Ok(Verdict::Inconclusive("step budget".into()));
    }
    match (&*res.borrow(), must_fail) {
        (None, _) => return bad("hang", format!("negotiation (accepting: {}) never ends after {:02x?} and end of stream", server, out)),
        (Some(Ok(x)), true) => return bad("accepted", format!("negotiation (accepting: {}) reports {:?} after {:02x?}", server, x, out)),
        _ => {}
    }
    acc.add("hostile", 1);
    acc.sig = mix(ex.trace, seed);
    acc.nontrivial = true;
    ex.clear();
    Ok(Verdict::Pass(acc))
}
