//! Independent parser of the multiplexer's wire format, and the model of what a conforming
//! endpoint may emit.
use std::collections::BTreeMap;

pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct F {
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

pub fn enc(f: &F) -> Vec<u8> {
    let mut v = vec![0, f.ty];
    v.extend_from_slice(&f.flags.to_be_bytes());
    v.extend_from_slice(&f.id.to_be_bytes());
    v.extend_from_slice(&f.len.to_be_bytes());
    if f.ty == 0 {
        v.extend_from_slice(&f.body);
    }
    v
}

pub fn data(flags: u16, id: u32, body: &[u8]) -> Vec<u8> {
    enc(&F { ty: 0, flags, id, len: body.len() as u32, body: body.to_vec() })
}
pub fn win(flags: u16, id: u32, delta: u32) -> Vec<u8> {
    enc(&F { ty: 1, flags, id, len: delta, body: vec![] })
}
pub fn ping(flags: u16, id: u32) -> Vec<u8> {
    enc(&F { ty: 2, flags, id: 0, len: id, body: vec![] })
}
pub fn goaway(code: u32) -> Vec<u8> {
    enc(&F { ty: 3, flags: 0, id: 0, len: code, body: vec![] })
}

/// incremental parser over a growing buffer
#[derive(Default)]
pub struct Parser {
    pub pos: usize,
    pub bad: Option<String>,
}

impl Parser {
    /// next complete frame within buf[..limit]
    pub fn next(&mut self, buf: &[u8], limit: usize) -> Option<F> {
        let limit = limit.min(buf.len());
        if self.bad.is_some() || limit < self.pos + 12 {
            return None;
        }
        let h = &buf[self.pos..];
        if h[0] != 0 || h[1] > 3 {
            self.bad = Some(format!("malformed header {:?} at {}", &h[..12], self.pos));
            return None;
        }
        let flags = u16::from_be_bytes([h[2], h[3]]);
        let id = u32::from_be_bytes([h[4], h[5], h[6], h[7]]);
        let len = u32::from_be_bytes([h[8], h[9], h[10], h[11]]);
        let mut body = vec![];
        let mut tot = 12;
        if h[1] == 0 {
            tot += len as usize;
            if limit < self.pos + tot {
                return None;
            }
            body = h[12..tot].to_vec();
        }
        self.pos += tot;
        Some(F { ty: h[1], flags, id, len, body })
    }
}

#[derive(Default, Clone, Debug)]
pub struct Wst {
    pub syn: bool,
    pub data: u64,
    pub credit_out: u64,
    pub credit_in: u64,
    pub fin: bool,
    pub rst: bool,
    pub peer_syn: bool,
}

/// What one endpoint emitted (out) and what it has taken from the connection (inn).
pub struct Monitor {
    pub side: u8,
    pub window: u64,
    pub out: Parser,
    pub inn: Parser,
    pub st: BTreeMap<u32, Wst>,
    pub last_syn: u32,
    pub goaway_out: u64,
    pub pings_in: Vec<u32>,
    pub pongs_out: Vec<u32>,
    pub pings_out: Vec<u32>,
    pub frames_out: u64,
    pub data_out: u64,
    pub credits: u64,
    pub max_used: u64,
    pub goaway_code: Option<u32>,
}

pub type Viol = (&'static str, &'static str, String);

impl Monitor {
    /// side 0 opens odd ids, side 1 even ones
    pub fn new(side: u8, window: u64) -> Monitor {
        Monitor {
            side,
            window,
            out: Parser::default(),
            inn: Parser::default(),
            st: BTreeMap::new(),
            last_syn: 0,
            goaway_out: 0,
            pings_in: vec![],
            pongs_out: vec![],
            pings_out: vec![],
            frames_out: 0,
            data_out: 0,
            credits: 0,
            max_used: 0,
            goaway_code: None,
        }
    }
    pub fn mine(&self, id: u32) -> bool {
        (id % 2 == 1) == (self.side == 0)
    }
    pub fn on_in(&mut self, buf: &[u8], taken: u64) {
        while let Some(f) = self.inn.next(buf, taken as usize) {
            match f.ty {
                0 | 1 => {
                    let s = self.st.entry(f.id).or_default();
                    if f.flags & SYN != 0 {
                        s.peer_syn = true;
                    }
                    if f.ty == 1 {
                        s.credit_in += u64::from(f.len);
                    }
                }
                2 => {
                    if f.flags & SYN != 0 {
                        self.pings_in.push(f.len);
                    }
                }
                _ => {}
            }
        }
    }
    /// consumed(id): bytes the application of this endpoint has read from that stream
    pub fn on_out(&mut self, buf: &[u8], consumed: &dyn Fn(u32) -> u64) -> Vec<Viol> {
        let mut v: Vec<Viol> = vec![];
        while let Some(f) = self.out.next(buf, buf.len()) {
            self.frames_out += 1;
            match f.ty {
                0 | 1 => {
                    let mine = self.mine(f.id);
                    let side = self.side;
                    if f.id == 0 {
                        v.push(("Y05", "reserved-id", format!("side {} used stream id 0: {:?}", side, f)));
                        continue;
                    }
                    let last = self.last_syn;
                    let s = self.st.entry(f.id).or_default();
                    if f.flags & SYN != 0 {
                        if !mine {
                            v.push(("Y05", "foreign-id", format!("side {} opened stream {} from the peer's id space", side, f.id)));
                        }
                        if s.syn {
                            v.push(("Y05", "id-reused", format!("side {} opened stream {} twice", side, f.id)));
                        }
                        if f.id <= last && mine && !s.syn {
                            v.push(("Y05", "id-order", format!("side {} opened stream {} after {}", side, f.id, last)));
                        }
                        s.syn = true;
                        if mine {
                            self.last_syn = last.max(f.id);
                        }
                    } else if mine && !s.syn {
                        v.push(("Y05", "not-announced", format!("side {} sent a frame of stream {} before opening it: type {} flags {}", side, f.id, f.ty, f.flags)));
                    } else if !mine && !s.peer_syn {
                        v.push(("Y05", "unknown-stream", format!("side {} sent a frame on stream {} the peer never opened", side, f.id)));
                    }
                    if f.ty == 0 {
                        if f.len > 0 && (s.fin || s.rst) {
                            v.push(("Y07", "data-after-close", format!("side {} sent {} bytes on stream {} after closing it", side, f.len, f.id)));
                        }
                        s.data += u64::from(f.len);
                        self.data_out += u64::from(f.len);
                        self.max_used = self.max_used.max(s.data.saturating_sub(s.credit_in));
                        if s.data > self.window + s.credit_in {
                            v.push(("Y02", "window-exceeded", format!(
                                "side {} sent {} bytes on stream {} with initial window {} and credit {}",
                                side, s.data, f.id, self.window, s.credit_in)));
                        }
                    } else {
                        s.credit_out += u64::from(f.len);
                        if f.len > 0 {
                            self.credits += 1;
                        }
                        let c = consumed(f.id);
                        if s.credit_out > c {
                            v.push(("Y02", "over-credit", format!(
                                "side {} granted {} on stream {} while its application read {}",
                                side, s.credit_out, f.id, c)));
                        }
                    }
                    if f.flags & FIN != 0 {
                        s.fin = true;
                    }
                    if f.flags & RST != 0 {
                        s.rst = true;
                    }
                }
                2 => {
                    if f.flags & ACK != 0 {
                        self.pongs_out.push(f.len);
                    } else if f.flags & SYN != 0 {
                        self.pings_out.push(f.len);
                    }
                }
                _ => {
                    self.goaway_out += 1;
                    self.goaway_code = Some(f.len);
                }
            }
        }
        if let Some(b) = self.out.bad.take() {
            v.push(("Y10", "malformed-out", format!("side {} emitted a {}", self.side, b)));
        }
        v
    }
}
