//! Judges a recorded history of one channel.
use crate::work::Inner;
use std::{collections::HashMap, fmt::Write};
use vcommon::{mix, Acc};

#[derive(Clone, Debug)]
pub enum Ev {
    SendStart { sender: usize, id: usize, high: bool },
    SendEnd { id: usize, ok: bool, full: bool },
    RecvStart,
    RecvEnd { id: Option<usize>, high: bool, empty: bool },
    CloseStart,
    CloseEnd { by_receiver: bool },
    DropStart { sender: usize },
    DropEnd { sender: usize },
    Cloned { sender: usize },
    QueryStart,
    QueryEnd { closed: bool, len: Option<usize> },
}

pub struct Info<'a> {
    pub cap: Option<usize>,
    pub shared: bool,
    pub sequential: bool,
    pub log: &'a Inner,
}

pub fn sig(l: &Inner) -> u64 {
    let mut h = 7;
    for e in &l.ev {
        h = mix(h, vcommon::hash_str(&format!("{:?}", e)));
    }
    h
}

pub fn tail(l: &Inner) -> String {
    let mut s = String::new();
    for e in l.ev.iter().rev().take(40).collect::<Vec<_>>().iter().rev() {
        let _ = write!(s, " {:?}", e);
    }
    s
}

type Bad = (String, String);

pub fn judge(which: &str, i: &Info, acc: &mut Acc) -> Result<(), Bad> {
    let l = i.log;
    let fail = |k: &str, w: String| -> Result<(), Bad> { Err((k.to_owned(), format!("{}; history ..{}", w, tail(l)))) };
    if let (Some((k, w)), true) = (&l.broken, which != "C03") {
        return fail(k, w.clone());
    }
    // per message
    #[derive(Clone, Default)]
    struct M {
        sender: usize,
        high: bool,
        end: Option<bool>,
        recv: bool,
    }
    let mut m: Vec<M> = vec![M::default(); l.next];
    let mut last: HashMap<(usize, bool), usize> = HashMap::new();
    let c01 = which == "C01";
    let c02 = which == "C02";
    let mut started = 0usize; // sends begun and not (yet) refused
    let mut accepted = 0usize;
    let mut received = 0usize;
    let mut sending = 0usize;
    let mut receiving = false;
    let mut recv_began_with: Vec<usize> = Vec::new(); // urgent messages complete when the receive began
    let mut held_at_recv = 0usize;
    let mut quiet_recv = true; // no send in progress during the receive
    let mut closing = 0usize; // close operations begun
    let mut closed = false; // a close operation completed
    let mut live: HashMap<usize, usize> = HashMap::new();
    let mut gone = 0usize; // senders whose drop completed
    let mut ended = false;
    let mut recv_end_count_at_send: HashMap<usize, usize> = HashMap::new();
    let mut closed_at_send: HashMap<usize, bool> = HashMap::new();
    let mut q: Option<(bool, usize, usize)> = None;
    let mut closed_at_recv = false;
    let all = l.ev.iter().filter(|e| matches!(e, Ev::DropStart { .. })).count();
    // a sender used by several threads at once has no bound of its own
    let bound = if i.shared { None } else { i.cap.map(|c| c + l.senders) };
    if i.shared {
        live.insert(0, all);
    } else {
        for s in 0..l.senders {
            live.insert(s, 1);
        }
    }
    for e in &l.ev {
        match e {
            Ev::SendStart { sender, id, high } => {
                m[*id] = M { sender: *sender, high: *high, end: None, recv: false };
                started += 1;
                sending += 1;
                quiet_recv = false;
                recv_end_count_at_send.insert(*id, received);
                closed_at_send.insert(*id, closed || live.get(sender).map_or(false, |n| *n == 0));
                acc.add(if *high { "sent_high" } else { "sent_normal" }, 1);
            }
            Ev::SendEnd { id, ok, full } => {
                sending -= 1;
                m[*id].end = Some(*ok);
                if *ok {
                    accepted += 1;
                    if c02 && closed_at_send[id] {
                        return fail("sent-after-close", format!("message {} accepted although the channel had been closed before", id));
                    }
                } else {
                    started -= 1;
                    if m[*id].recv {
                        return if c01 { fail("refused-but-received", format!("message {} was refused and received", id)) } else { Ok(()) };
                    }
                    if *full {
                        acc.add("refused_full", 1);
                        if c02 {
                            let held = started.saturating_sub(recv_end_count_at_send[id]);
                            let need = if i.sequential { i.cap.unwrap_or(0).max(1) } else { 1 };
                            if i.cap.is_none() || held < need {
                                return fail("full-while-room", format!("message {} refused as full while at most {} messages were inside", id, held));
                            }
                        }
                    } else {
                        acc.add("refused_closed", 1);
                        if c02 && closing == 0 && live.values().any(|n| *n > 0) && live.get(&m[*id].sender).map_or(true, |n| *n > 0) {
                            return fail("disconnected-while-open", format!("message {} refused although nobody closed the channel", id));
                        }
                    }
                }
                if let (true, Some(b), false) = (c02, bound, receiving) {
                    if accepted > received + b {
                        return fail("bound", format!("{} messages inside, bound is {}", accepted - received, b));
                    }
                }
                acc.max("held", (accepted.saturating_sub(received)) as u64);
            }
            Ev::RecvStart => {
                if ended {
                    continue;
                }
                receiving = true;
                quiet_recv = sending == 0;
                closed_at_recv = closed || gone >= all;
                held_at_recv = accepted.saturating_sub(received);
                recv_began_with.clear();
                for (id, x) in m.iter().enumerate() {
                    if x.high && x.end == Some(true) && !x.recv {
                        recv_began_with.push(id);
                    }
                }
                if let (true, Some(b)) = (c02, bound) {
                    if held_at_recv > b {
                        return fail("bound", format!("{} messages inside, bound is {}", held_at_recv, b));
                    }
                }
            }
            Ev::RecvEnd { id: Some(id), high, .. } => {
                receiving = false;
                received += 1;
                acc.add("received", 1);
                acc.add("judged", 1);
                let x = &mut m[*id];
                let again = x.recv;
                x.recv = true;
                let (sender, is_high, end) = (x.sender, x.high, x.end);
                if c01 {
                    if again {
                        return fail("twice", format!("message {} received twice", id));
                    }
                    if end == Some(false) {
                        return fail("refused-but-received", format!("message {} was refused and received", id));
                    }
                    if is_high != *high {
                        return fail("priority-label", format!("message {} received with the wrong priority", id));
                    }
                    // a shared sender has no order of its own
                    if !i.shared {
                        if let Some(p) = last.insert((sender, is_high), *id) {
                            if p > *id {
                                return fail("order", format!("message {} of sender {} received after message {}", id, sender, p));
                            }
                        }
                    }
                    if !is_high {
                        acc.add("receives_judged_for_priority", 1);
                        if let Some(h) = recv_began_with.first() {
                            return fail("priority", format!("normal message {} received while the urgent message {} was waiting", id, h));
                        }
                    }
                }
            }
            Ev::RecvEnd { id: None, empty: true, .. } => {
                receiving = false;
                if c02 && held_at_recv > 0 {
                    return fail("message-not-seen", format!("nothing received while {} messages were inside", held_at_recv));
                }
                if c02 && closed_at_recv && quiet_recv && held_at_recv == 0 {
                    return fail("no-end", "the channel is closed and empty, but its stream does not end".into());
                }
            }
            Ev::RecvEnd { id: None, .. } => {
                receiving = false;
                ended = true;
                acc.add("drained_to_end", 1);
                acc.add("judged", 1);
                if closing == 0 && !live.values().any(|n| *n > 0) {
                    acc.add("ended_by_last_drop", 1);
                }
                if c02 && closing == 0 && live.values().any(|n| *n > 0) {
                    return fail("early-end", "the stream ended while a sender was alive and nobody had closed the channel".into());
                }
            }
            Ev::CloseStart => closing += 1,
            Ev::CloseEnd { by_receiver } => {
                closed = true;
                acc.add(if *by_receiver { "closed_by_receiver" } else { "closed_by_sender" }, 1);
                acc.add("judged", 1);
            }
            Ev::DropStart { sender } => {
                if let Some(n) = live.get_mut(sender) {
                    *n = n.saturating_sub(1);
                }
            }
            Ev::DropEnd { .. } => gone += 1,
            Ev::Cloned { .. } => {}
            Ev::QueryStart => q = Some((closed, started, received)),
            Ev::QueryEnd { closed: c, len } => {
                // several senders may ask at the same time; judge only in one task
                if let (Some((was, _, _)), true, true) = (q.take(), c02, i.sequential) {
                    if was != *c {
                        return fail("is-closed", format!("is_closed says {} but the channel is {}", c, if was { "closed" } else { "open" }));
                    }
                    if i.cap.is_none() && *len != if was { None } else { Some(accepted - received) } {
                        return fail("length", format!("len says {:?}, {} messages are inside, closed {}", len, accepted - received, was));
                    }
                }
            }
        }
    }
    if ended {
        if let Some((id, _)) = m.iter().enumerate().find(|(_, x)| x.end == Some(true) && !x.recv) {
            if c01 || c02 {
                return fail("lost", format!("message {} was accepted and never received", id));
            }
        }
    }
    acc.add("blocked_sender_resumed", l.blocked_resumed);
    acc.add("receiver_waited", l.recv_waited);
    if which == "C03" {
        for (id, n) in l.drops.iter().enumerate() {
            if *n != 1 {
                return fail("destroyed", format!("message {} was destroyed {} times", id, n));
            }
            acc.add("destroyed", 1);
            acc.add("judged", 1);
            if m[id].end == Some(true) && !m[id].recv {
                acc.add("dropped_inside", 1);
            }
        }
    }
    Ok(())
}
