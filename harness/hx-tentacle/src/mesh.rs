//! A few services connected with each other, sessions paired up.
use crate::{
    judge::R,
    net::*,
    proxy::{Plan, Proxy},
};
use std::{collections::HashMap, sync::Arc};
use tentacle::{secio::SecioKeyPair, service::TargetProtocol, ProtocolId};
use tokio::runtime::Runtime;
use vcommon::{Rng, Verdict};

pub struct Link {
    /// dialler and its session
    pub a: (usize, usize),
    pub b: (usize, usize),
    pub proxy: Option<Proxy>,
}

pub struct Mesh {
    pub rt: Option<Runtime>,
    pub log: Arc<Log>,
    pub nodes: Vec<Node>,
    pub links: Vec<Link>,
    /// (node, session) -> (node, session)
    pub peer: HashMap<(usize, usize), (usize, usize)>,
    pub protos: Vec<usize>,
}

impl Drop for Mesh {
    fn drop(&mut self) {
        for n in &self.nodes {
            for k in n.knobs.lock().unwrap().values() {
                k.resume();
            }
        }
        if let Some(rt) = self.rt.take() {
            stop(rt);
        }
    }
}

pub struct MeshCfg {
    pub nodes: usize,
    pub secure: bool,
    pub ws: bool,
    pub protos: Vec<usize>,
    pub proxied: u64,
    pub window: Option<u32>,
    pub send_buf: Option<usize>,
    pub keep_buffer: bool,
    pub modes: Option<Mode>,
    pub extra_links: bool,
    pub no_block: bool,
    pub keepalive_ms: Option<u64>,
    /// encrypted frames as small as the window allows
    pub tight: bool,
    pub runtime: Option<Runtime>,
}

impl MeshCfg {
    pub fn random(r: &mut Rng) -> MeshCfg {
        MeshCfg {
            nodes: r.rus(2, 4),
            secure: r.chance(1, 2),
            ws: r.chance(1, 8),
            protos: (1..=r.rus(1, 4)).collect(),
            proxied: *r.pick(&[0u64, 50, 100]),
            window: if r.chance(1, 2) { Some(1 << r.range(14, 18)) } else { None },
            send_buf: None,
            keep_buffer: r.chance(1, 3),
            modes: None,
            extra_links: true,
            no_block: r.chance(1, 4),
            keepalive_ms: None,
            tight: false,
            runtime: None,
        }
    }
}

pub fn until(log: &Log, what: &str, pred: impl FnMut(&[Ev]) -> bool) -> R<()> {
    if log.wait(pred)? {
        Ok(())
    } else {
        // setting up is not what is being judged
        Err(Verdict::Inconclusive(format!("set up: {}\n{}", what, log.render(&[], 40))))
    }
}

pub fn mesh(r: &mut Rng, mut c: MeshCfg) -> R<Mesh> {
    mesh_with(r, &mut c, |_, _, p| p)
}

pub fn mesh_with(r: &mut Rng, c: &mut MeshCfg, mut tweak: impl FnMut(&mut Rng, usize, ProtoCfg) -> ProtoCfg) -> R<Mesh> {
    let log = Log::new();
    let rt = c.runtime.take().unwrap_or_else(|| runtime(r));
    let mut nodes = Vec::new();
    let mut keys: Vec<SecioKeyPair> = Vec::new();
    for n in 0..c.nodes {
        let mut protos = Vec::new();
        for p in &c.protos {
            let mode = c.modes.unwrap_or_else(|| Mode::any(r));
            let mut pc = ProtoCfg::new(*p, mode);
            pc.no_block = c.no_block;
            protos.push(tweak(r, n, pc));
        }
        keys.push(key(r));
        nodes.push(start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if c.secure { Some(keys[n].clone()) } else { None },
                protos,
                window: c.window,
                send_buf: c.send_buf,
                keep_buffer: c.keep_buffer,
                keepalive_ms: c.keepalive_ms,
                frame: if c.tight { Some(c.window.unwrap_or(256 * 1024) as usize) } else { None },
                listen: Some(fresh(r, c.ws)),
                ..NodeCfg::default()
            },
        ));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: c.protos.clone() };
    for i in 1..c.nodes {
        let j = r.us(i);
        connect(&mut m, r, c, i, j)?;
        if c.extra_links && i > 1 && r.chance(1, 2) {
            let k = (j + 1) % i;
            connect(&mut m, r, c, i, k)?;
        }
    }
    // without keys a second session between the same services is allowed
    if c.extra_links && !c.secure && r.chance(1, 3) {
        connect(&mut m, r, c, 1, 0)?;
    }
    Ok(m)
}

pub fn connect(m: &mut Mesh, r: &mut Rng, c: &MeshCfg, i: usize, j: usize) -> R<()> {
    let target = m.nodes[j].addr.clone().unwrap();
    let proxy = if r.below(100) < c.proxied {
        Some(Proxy::new(r, &target, |r, _| (Plan::clean(r), Plan::clean(r))))
    } else {
        None
    };
    connect_by(m, i, j, proxy, TargetProtocol::All)
}

/// dials and waits until both ends have all protocols open
pub fn connect_by(m: &mut Mesh, i: usize, j: usize, proxy: Option<Proxy>, target: TargetProtocol) -> R<()> {
    let all = match target {
        TargetProtocol::All => m.protos.clone(),
        TargetProtocol::Single(p) => vec![p.value()],
        TargetProtocol::Multi(ref v) => v.iter().map(|p| p.value()).collect(),
    };
    let to = proxy.as_ref().map(|p| p.addr.clone()).unwrap_or_else(|| m.nodes[j].addr.clone().unwrap());
    let from = m.log.len();
    m.nodes[i].ctl.dial(to, target).unwrap();
    let find = |evs: &[Ev], n: usize, o: bool| {
        evs[from..].iter().find_map(|e| match e.w {
            What::Open { s, out, .. } if e.n == n && out == o => Some(s),
            _ => None,
        })
    };
    until(&m.log, "session", |evs| find(evs, i, true).is_some() && find(evs, j, false).is_some())?;
    let (a, b) = m.log.with(|evs| (find(evs, i, true).unwrap(), find(evs, j, false).unwrap()));
    let (va, vb) = (m.nodes[i].modes.clone(), m.nodes[j].modes.clone());
    until(&m.log, "protocols", |evs| {
        all.iter().all(|p| is_conn(evs, i, a, *p, va[p].vias()) && is_conn(evs, j, b, *p, vb[p].vias()))
    })?;
    m.peer.insert((i, a), (j, b));
    m.peer.insert((j, b), (i, a));
    m.links.push(Link { a: (i, a), b: (j, b), proxy });
    Ok(())
}

impl Mesh {
    pub fn sessions(&self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self.peer.keys().filter(|k| k.0 == n).map(|k| k.1).collect();
        v.sort_unstable();
        v
    }
    pub fn refs(&self) -> Vec<&Node> {
        self.nodes.iter().collect()
    }
}

pub fn pid(p: usize) -> ProtocolId {
    ProtocolId::new(p)
}
