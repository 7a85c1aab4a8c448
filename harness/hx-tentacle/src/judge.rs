//! Automata over the event log.
use crate::net::{Ev, Mode, Node, Via, What};
use std::collections::{HashMap, HashSet};
use vcommon::{Acc, Verdict};

pub type R<T> = Result<T, Verdict>;

fn v<T>(key: &str, what: String, evs: &[Ev], n: usize, s: Option<usize>, p: Option<usize>) -> R<T> {
    let mut o = String::new();
    let t0 = evs.first().map(|e| e.t);
    let mut l: Vec<String> = Vec::new();
    for e in evs.iter().filter(|e| e.n == n) {
        let (es, ep) = parts(&e.w);
        if s.is_some() && es.is_some() && es != s {
            continue;
        }
        if p.is_some() && ep.is_some() && ep != p {
            continue;
        }
        let w = match &e.w {
            What::Recv { p, s, via, obj, data } => format!("Recv p{} s{} {:?} obj{} {}", p, s, via, obj, crate::net::show(data)),
            w => format!("{:?}", w),
        };
        l.push(format!("  {}ms node{} {}", t0.map(|t| e.t.duration_since(t).as_millis()).unwrap_or(0), e.n, w));
    }
    let from = l.len().saturating_sub(60);
    for x in &l[from..] {
        o.push_str(x);
        o.push('\n');
    }
    Err(Verdict::Violation(key.into(), format!("{}\nevents:\n{}", what, o)))
}

fn parts(w: &What) -> (Option<usize>, Option<usize>) {
    match w {
        What::Conn { p, s, .. } | What::Recv { p, s, .. } | What::Disc { p, s, .. } | What::ProtoErr { p, s, .. } => {
            (Some(*s), Some(*p))
        }
        What::Open { s, .. } | What::Close { s } | What::MuxErr { s, .. } | What::Blocked { s, .. } | What::SelectErr { s, .. } => {
            (Some(*s), None)
        }
        What::Gone { p, .. } | What::Init { p } => (None, Some(*p)),
        _ => (None, None),
    }
}

/// T03. `settled`: the log is complete, everything closed must have been reported.
pub fn handlers(evs: &[Ev], nodes: &[&Node], settled: bool, acc: &mut Acc) -> R<()> {
    for node in nodes {
        let n = node.n;
        let modes: &HashMap<usize, Mode> = &node.modes;
        // (via, p, s) -> open object
        // (a spawned reader belongs to one opening, it may outlive it a little)
        let mut open: HashMap<(Via, usize, usize, u64), u64> = HashMap::new();
        let sp = |via: Via, obj: u64| if via == Via::Spn { obj } else { 0 };
        let mut obj_of: HashMap<u64, (usize, usize)> = HashMap::new();
        let mut gone: HashSet<u64> = HashSet::new();
        let mut init: HashMap<usize, usize> = HashMap::new();
        let mut sess_open: HashSet<usize> = HashSet::new();
        let mut sess_closed: HashSet<usize> = HashSet::new();
        let mut ended = false;
        for e in evs.iter().filter(|e| e.n == n) {
            match &e.w {
                What::Init { p } => {
                    *init.entry(*p).or_insert(0) += 1;
                    if init[p] > 1 {
                        return v("init-twice", format!("node {} protocol {}: init called again", n, p), evs, n, None, Some(*p));
                    }
                    acc.add("inits", 1);
                }
                What::Conn { p, s, via, obj, .. } => {
                    if !modes.get(p).map_or(false, |m| m.vias().contains(via)) {
                        return v("wrong-handler", format!("node {} protocol {}: {:?} handler called, {:?} registered", n, p, via, modes.get(p)), evs, n, Some(*s), Some(*p));
                    }
                    if *via == Via::Svc && init.get(p) != Some(&1) {
                        return v("before-init", format!("node {} protocol {}: connected before init", n, p), evs, n, Some(*s), Some(*p));
                    }
                    if *via != Via::Evt && *via != Via::Spn {
                        if let Some(o) = obj_of.get(obj) {
                            if *via == Via::Ses && *o != (*p, *s) {
                                return v("object-shared", format!("node {}: session-lived handler object {} of protocol {} session {} called for protocol {} session {}", n, obj, o.0, o.1, p, s), evs, n, None, Some(*p));
                            }
                        }
                        obj_of.insert(*obj, (*p, *s));
                    }
                    if gone.contains(obj) && *obj != 0 && *via == Via::Ses {
                        return v("dropped-called", format!("node {}: handler object {} called after it was dropped", n, obj), evs, n, Some(*s), Some(*p));
                    }
                    if let Some(o) = open.insert((*via, *p, *s, sp(*via, *obj)), *obj) {
                        // a session-lived handler ends by being dropped
                        if !(*via == Via::Ses && gone.contains(&o)) {
                            return v("connected-twice", format!("node {} protocol {} session {} {:?}: connected again without disconnected", n, p, s, via), evs, n, Some(*s), Some(*p));
                        }
                    }
                    acc.add("connected", 1);
                }
                What::Recv { p, s, via, obj, .. } => {
                    match open.get(&(*via, *p, *s, sp(*via, *obj))) {
                        None => {
                            return v("received-outside", format!("node {} protocol {} session {} {:?}: received while not connected", n, p, s, via), evs, n, Some(*s), Some(*p));
                        }
                        Some(o) if *o != *obj && (*via == Via::Ses || *via == Via::Spn) => {
                            return v("received-other", format!("node {} protocol {} session {} {:?}: received by object {} but object {} is connected", n, p, s, via, obj, o), evs, n, Some(*s), Some(*p));
                        }
                        _ => (),
                    }
                    acc.add("received", 1);
                }
                What::Disc { p, s, via, obj } => {
                    match open.remove(&(*via, *p, *s, sp(*via, *obj))) {
                        None => {
                            return v("disconnected-outside", format!("node {} protocol {} session {} {:?}: disconnected while not connected", n, p, s, via), evs, n, Some(*s), Some(*p));
                        }
                        Some(o) if o != *obj && (*via == Via::Ses || *via == Via::Spn) => {
                            return v("disconnected-other", format!("node {} protocol {} session {} {:?}: disconnected on object {} but object {} is connected", n, p, s, via, obj, o), evs, n, Some(*s), Some(*p));
                        }
                        _ => (),
                    }
                    acc.add("disconnected", 1);
                }
                What::Notify { s: Some(s), obj, p, .. } => {
                    if let Some(o) = obj_of.get(obj) {
                        if *o != (*p, *s) {
                            return v("object-shared", format!("node {}: session-lived handler object {} of {:?} got a timer of protocol {} session {}", n, obj, o, p, s), evs, n, None, Some(*p));
                        }
                    }
                }
                What::Gone { obj, .. } => {
                    gone.insert(*obj);
                }
                What::Open { s, .. } => {
                    sess_open.insert(*s);
                }
                What::Close { s } => {
                    sess_closed.insert(*s);
                }
                What::End => ended = true,
                _ => (),
            }
        }
        if settled {
            for ((via, p, s, _), obj) in &open {
                if (sess_closed.contains(s) || ended) && !(*via == Via::Ses && gone.contains(obj)) {
                    // whatever the service itself does not live to deliver is out of scope
                    if ended && *via == Via::Evt {
                        continue;
                    }
                    return v("never-disconnected", format!("node {} protocol {} session {} {:?}: session closed, disconnected never called", n, p, s, via), evs, n, Some(*s), Some(*p));
                }
            }
        }
    }
    Ok(())
}

/// T04, one node's view: opened once with a fresh id, closed once, nothing of a session outside it.
pub fn sessions(evs: &[Ev], n: usize, settled_ended: bool, acc: &mut Acc) -> R<()> {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut open: HashSet<usize> = HashSet::new();
    for e in evs.iter().filter(|e| e.n == n) {
        match &e.w {
            What::Open { s, .. } => {
                if !seen.insert(*s) {
                    return v("id-again", format!("node {}: session {} opened twice", n, s), evs, n, None, None);
                }
                open.insert(*s);
                acc.add("sessions opened", 1);
            }
            What::Close { s } => {
                if !open.remove(s) {
                    return v("close-outside", format!("node {}: session {} reported closed while not open", n, s), evs, n, None, None);
                }
                acc.add("sessions closed", 1);
            }
            What::Conn { s, via: Via::Evt, .. } | What::Recv { s, via: Via::Evt, .. } => {
                if !open.contains(s) {
                    return v("event-outside", format!("node {}: {:?} for session {} which is not open", n, e.w, s), evs, n, None, None);
                }
            }
            What::MuxErr { s, .. } | What::ProtoErr { s, .. } | What::SelectErr { s, .. } | What::Blocked { s, .. } => {
                if !seen.contains(s) {
                    return v("error-before-open", format!("node {}: {:?} before the session was reported open", n, e.w), evs, n, None, None);
                }
            }
            _ => (),
        }
    }
    if settled_ended && !open.is_empty() {
        return v("never-closed", format!("node {}: sessions {:?} never reported closed", n, open), evs, n, None, None);
    }
    Ok(())
}
