//! Independent implementation of the handshake, written from the protocol description with
//! `ring` and `secp256k1` only. It follows the protocol or departs from it at a chosen point.
use ring::{aead, agreement, digest, hmac, rand::SystemRandom};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use std::io;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vcommon::{link::Sock, Rng};

pub const EXCH: [&str; 3] = ["P-256", "P-384", "X25519"];
pub const CIPH: [&str; 3] = ["AES-128-GCM", "AES-256-GCM", "CHACHA20_POLY1305"];
pub const HASH: [&str; 2] = ["SHA256", "SHA512"];

pub fn sha256(d: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, d).as_ref().to_vec()
}

// ---- molecule ----

#[cfg(feature = "molc")]
pub fn fixvec(d: &[u8]) -> Vec<u8> {
    let mut v = (d.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(d);
    v
}

#[cfg(feature = "molc")]
pub fn table(fields: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 + 4 * fields.len();
    let total = head + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut v = (total as u32).to_le_bytes().to_vec();
    let mut off = head;
    for f in fields {
        v.extend_from_slice(&(off as u32).to_le_bytes());
        off += f.len();
    }
    for f in fields {
        v.extend_from_slice(f);
    }
    v
}

fn le(d: &[u8], at: usize) -> Option<usize> {
    let b = d.get(at..at + 4)?;
    Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
}

#[cfg(feature = "molc")]
/// fields of a table of byte vectors
pub fn untable(d: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
    let total = le(d, 0)?;
    if total != d.len() {
        return None;
    }
    let mut out = vec![];
    for i in 0..n {
        let o = le(d, 4 + 4 * i)?;
        let len = le(d, o)?;
        out.push(d.get(o + 4..o + 4 + len)?.to_vec());
    }
    Some(out)
}

#[cfg(feature = "molc")]
pub fn enc_key(raw: &[u8]) -> Vec<u8> {
    let mut v = 0u32.to_le_bytes().to_vec();
    v.extend(fixvec(raw));
    v
}

#[cfg(feature = "molc")]
pub fn enc_propose(rand: &[u8], key: &[u8], e: &str, c: &str, h: &str) -> Vec<u8> {
    table(&[
        fixvec(rand),
        fixvec(&enc_key(key)),
        fixvec(e.as_bytes()),
        fixvec(c.as_bytes()),
        fixvec(h.as_bytes()),
    ])
}

#[cfg(feature = "molc")]
pub fn enc_exchange(epub: &[u8], sig: &[u8]) -> Vec<u8> {
    table(&[fixvec(epub), fixvec(sig)])
}

#[cfg(feature = "molc")]
pub fn dec_key(d: &[u8]) -> Option<Vec<u8>> {
    d.get(8..).map(|d| d.to_vec())
}

// ---- flatbuffers ----

#[cfg(feature = "flatc")]
mod fb {
    /// table whose fields are byte vectors (`true`: strings) or, when `None`, left out
    pub fn table(fields: &[Option<(Vec<u8>, bool)>]) -> Vec<u8> {
        let n = fields.len();
        let vt = 4 + 2 * n;
        let t = (4 + vt + 3) / 4 * 4;
        let mut v = (t as u32).to_le_bytes().to_vec();
        v.extend_from_slice(&(vt as u16).to_le_bytes());
        v.extend_from_slice(&(4 + 4 * n as u16).to_le_bytes());
        for (i, f) in fields.iter().enumerate() {
            let o = if f.is_some() { 4 + 4 * i as u16 } else { 0 };
            v.extend_from_slice(&o.to_le_bytes());
        }
        v.resize(t, 0);
        v.extend_from_slice(&((t - 4) as i32).to_le_bytes());
        v.resize(t + 4 + 4 * n, 0);
        for (i, f) in fields.iter().enumerate() {
            if let Some((d, text)) = f {
                let (at, slot) = (v.len(), t + 4 + 4 * i);
                v[slot..slot + 4].copy_from_slice(&((at - slot) as u32).to_le_bytes());
                v.extend_from_slice(&(d.len() as u32).to_le_bytes());
                v.extend_from_slice(d);
                if *text {
                    v.push(0);
                }
                while v.len() % 4 != 0 {
                    v.push(0);
                }
            }
        }
        v
    }

    fn u16le(d: &[u8], at: usize) -> Option<usize> {
        let b = d.get(at..at + 2)?;
        Some(u16::from_le_bytes([b[0], b[1]]) as usize)
    }

    /// byte vector in field `i`
    pub fn field(d: &[u8], i: usize) -> Option<Vec<u8>> {
        let t = super::le(d, 0)?;
        let vt = (t as i64 - super::le(d, t)? as u32 as i32 as i64) as usize;
        if 4 + 2 * i + 2 > u16le(d, vt)? {
            return None;
        }
        let slot = match u16le(d, vt + 4 + 2 * i)? {
            0 => return None,
            o => t + o,
        };
        let at = slot + super::le(d, slot)?;
        let len = super::le(d, at)?;
        Some(d.get(at + 4..at + 4 + len)?.to_vec())
    }
}

/// fields of a table of byte vectors
#[cfg(feature = "flatc")]
pub fn untable(d: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
    (0..n).map(|i| fb::field(d, i)).collect()
}

#[cfg(feature = "flatc")]
pub fn enc_key(raw: &[u8]) -> Vec<u8> {
    fb::table(&[None, Some((raw.to_vec(), false))])
}

#[cfg(feature = "flatc")]
pub fn dec_key(d: &[u8]) -> Option<Vec<u8>> {
    fb::field(d, 1)
}

#[cfg(feature = "flatc")]
pub fn enc_propose(rand: &[u8], key: &[u8], e: &str, c: &str, h: &str) -> Vec<u8> {
    let s = |x: &str| Some((x.as_bytes().to_vec(), true));
    fb::table(&[Some((rand.to_vec(), false)), Some((enc_key(key), false)), s(e), s(c), s(h)])
}

#[cfg(feature = "flatc")]
pub fn enc_exchange(epub: &[u8], sig: &[u8]) -> Vec<u8> {
    fb::table(&[Some((epub.to_vec(), false)), Some((sig.to_vec(), false))])
}

// ---- framing ----

pub async fn read_frame(s: &mut Sock) -> io::Result<Vec<u8>> {
    let mut h = [0u8; 4];
    s.read_exact(&mut h).await?;
    let mut b = vec![0u8; u32::from_be_bytes(h) as usize];
    s.read_exact(&mut b).await?;
    Ok(b)
}

pub fn frame(d: &[u8]) -> Vec<u8> {
    let mut v = (d.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(d);
    v
}

pub async fn write_frame(s: &mut Sock, d: &[u8]) -> io::Result<()> {
    s.write_all(&frame(d)).await?;
    s.flush().await
}

// ---- aead with explicit message number ----

pub fn alg(c: &str) -> &'static aead::Algorithm {
    match c {
        "AES-128-GCM" => &aead::AES_128_GCM,
        "AES-256-GCM" => &aead::AES_256_GCM,
        _ => &aead::CHACHA20_POLY1305,
    }
}

fn nonce(n: u64) -> aead::Nonce {
    let mut b = [0u8; 12];
    b[..8].copy_from_slice(&n.to_le_bytes());
    aead::Nonce::assume_unique_for_key(b)
}

pub struct Aead {
    key: aead::LessSafeKey,
    pub n: u64,
}

impl Aead {
    pub fn new(c: &str, key: &[u8]) -> Aead {
        let k = aead::UnboundKey::new(alg(c), key).expect("key size");
        Aead { key: aead::LessSafeKey::new(k), n: 0 }
    }
    pub fn seal(&mut self, d: &[u8]) -> Vec<u8> {
        self.n += 1;
        let mut b = d.to_vec();
        self.key
            .seal_in_place_append_tag(nonce(self.n), aead::Aad::empty(), &mut b)
            .expect("seal");
        b
    }
    pub fn open(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        self.n += 1;
        let mut b = d.to_vec();
        let r = self
            .key
            .open_in_place(nonce(self.n), aead::Aad::empty(), &mut b)
            .ok()
            .map(|x| x.to_vec());
        r
    }
}

pub fn key_len(c: &str) -> usize {
    alg(c).key_len()
}

/// (first half key, second half key)
pub fn stretch(secret: &[u8], hash: &str, c: &str) -> (Vec<u8>, Vec<u8>) {
    let a = if hash == "SHA256" { hmac::HMAC_SHA256 } else { hmac::HMAC_SHA512 };
    let k = hmac::Key::new(a, secret);
    let seed = b"key expansion";
    let kl = key_len(c);
    let half = 12 + kl + 20;
    let mut out = vec![];
    let mut t = hmac::sign(&k, seed).as_ref().to_vec();
    while out.len() < 2 * half {
        let mut x = t.clone();
        x.extend_from_slice(seed);
        out.extend_from_slice(hmac::sign(&k, &x).as_ref());
        t = hmac::sign(&k, &t).as_ref().to_vec();
    }
    (out[12..12 + kl].to_vec(), out[half + 12..half + 12 + kl].to_vec())
}

// ---- identity ----

#[derive(Clone)]
pub struct Id {
    pub sk: SecretKey,
    pub pk: Vec<u8>,
    pub raw: [u8; 32],
}

impl Id {
    pub fn new(r: &mut Rng) -> Id {
        let secp = Secp256k1::new();
        loop {
            let mut raw = [0u8; 32];
            raw.copy_from_slice(&r.bytes(32));
            if let Ok(sk) = SecretKey::from_slice(&raw) {
                let pk = PublicKey::from_secret_key(&secp, &sk).serialize().to_vec();
                return Id { sk, pk, raw };
            }
        }
    }
    pub fn pair(&self) -> tentacle_secio::SecioKeyPair {
        tentacle_secio::SecioKeyPair::secp256k1_raw_key(self.raw).expect("valid key")
    }
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        let m = Message::from_slice(&sha256(data)).expect("32 bytes");
        Secp256k1::new().sign(&m, &self.sk).serialize_der().to_vec()
    }
}

pub fn sig_ok(pk: &[u8], data: &[u8], sig: &[u8]) -> bool {
    let m = Message::from_slice(&sha256(data)).expect("32 bytes");
    match (PublicKey::from_slice(pk), secp256k1::Signature::from_der(sig)) {
        (Ok(p), Ok(s)) => Secp256k1::new().verify(&m, &s, &p).is_ok(),
        _ => false,
    }
}

// ---- the handshake ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Deviate {
    No,
    /// claim the key of this identity, sign with our own
    ClaimOther(Vec<u8>),
    SignOrderSwapped,
    SignWithoutRemote,
    SignWithoutEphemeral,
    SignOtherEphemeral,
    SignOtherNonce,
    SignatureFlip(usize),
    SignatureEmpty,
    EphemeralRandom,
    EphemeralShort,
    EchoWrong(usize),
    EchoShort(usize),
    EchoEmpty,
    EchoOurOwn,
    EchoUnderWrongKey,
    /// replays a recorded propose and exchange of that identity
    Replay(Vec<u8>, Vec<u8>),
}

pub struct Conf {
    pub id: Id,
    pub rand: Vec<u8>,
    pub exch: String,
    pub ciph: String,
    pub hash: String,
    pub dev: Deviate,
}

impl Conf {
    pub fn new(id: Id, r: &mut Rng) -> Conf {
        Conf {
            id,
            rand: r.bytes(16),
            exch: EXCH.join(","),
            ciph: CIPH.join(","),
            hash: HASH.join(","),
            dev: Deviate::No,
        }
    }
}

pub struct Done {
    /// what the other side turned out to use
    pub exch: &'static str,
    pub ciph: &'static str,
    pub hash: &'static str,
    pub tx: Aead,
    pub rx: Aead,
    pub remote_key: Vec<u8>,
    pub remote_epub: Vec<u8>,
    /// our own propose and exchange, for replays
    pub sent: (Vec<u8>, Vec<u8>),
}

#[derive(Debug)]
pub enum Fail {
    Io,
    /// the other side sent something that is not the protocol
    Protocol(String),
}

impl From<io::Error> for Fail {
    fn from(_: io::Error) -> Fail {
        Fail::Io
    }
}

fn split_list(s: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(s).split(',').map(|x| x.to_owned()).collect()
}

pub struct Offer {
    pub exch: Vec<String>,
    pub ciph: Vec<String>,
    pub hash: Vec<String>,
}

/// Run the handshake against a real end. Returns once the other side's nonce echo was
/// opened (`Done`) or the connection ended.
pub async fn handshake(s: &mut Sock, c: &Conf) -> Result<(Done, Offer), Fail> {
    let bad = |x: &str| Fail::Protocol(x.to_owned());
    let claimed = match &c.dev {
        Deviate::ClaimOther(k) => k.clone(),
        _ => c.id.pk.clone(),
    };
    let mine = match &c.dev {
        Deviate::Replay(p, _) => p.clone(),
        _ => enc_propose(&c.rand, &claimed, &c.exch, &c.ciph, &c.hash),
    };
    write_frame(s, &mine).await?;
    let theirs = read_frame(s).await?;
    let f = untable(&theirs, 5).ok_or_else(|| bad("propose is not a table of five vectors"))?;
    let (their_rand, their_pub) = (f[0].clone(), dec_key(&f[1]).unwrap_or_default());
    let offer = Offer { exch: split_list(&f[2]), ciph: split_list(&f[3]), hash: split_list(&f[4]) };
    // the other end shows its choice of key agreement first
    let their_ex = read_frame(s).await?;
    let x = untable(&their_ex, 2).ok_or_else(|| bad("exchange is not a table of two vectors"))?;
    let exch = match x[0].len() {
        65 => "P-256",
        97 => "P-384",
        32 => "X25519",
        n => return Err(Fail::Protocol(format!("ephemeral key of {} bytes", n))),
    };
    let signed: Vec<u8> = [&theirs[..], &mine[..], &x[0][..]].concat();
    if !sig_ok(&their_pub, &signed, &x[1]) {
        return Err(bad("signature of the real end does not verify"));
    }
    let a = match exch {
        "P-256" => &agreement::ECDH_P256,
        "P-384" => &agreement::ECDH_P384,
        _ => &agreement::X25519,
    };
    let rng = SystemRandom::new();
    let sk = agreement::EphemeralPrivateKey::generate(a, &rng).expect("ephemeral");
    let pk = sk.compute_public_key().expect("ephemeral").as_ref().to_vec();
    let (mut send_pk, mut sign_pk) = (pk.clone(), pk.clone());
    let mut part_mine = mine.clone();
    let mut part_theirs = theirs.clone();
    match &c.dev {
        Deviate::SignWithoutRemote => part_theirs = vec![],
        Deviate::SignWithoutEphemeral => sign_pk = vec![],
        Deviate::SignOtherEphemeral => {
            sign_pk = agreement::EphemeralPrivateKey::generate(a, &rng)
                .expect("ephemeral")
                .compute_public_key()
                .expect("ephemeral")
                .as_ref()
                .to_vec()
        }
        Deviate::SignOtherNonce => {
            let mut rr = c.rand.clone();
            rr[0] ^= 1;
            part_mine = enc_propose(&rr, &claimed, &c.exch, &c.ciph, &c.hash);
        }
        Deviate::EphemeralRandom => {
            for (i, b) in send_pk.iter_mut().enumerate() {
                if i > 0 {
                    *b = c.rand[i % c.rand.len()];
                }
            }
            sign_pk = send_pk.clone();
        }
        Deviate::EphemeralShort => {
            send_pk.pop();
            sign_pk = send_pk.clone();
        }
        _ => {}
    }
    let data = if c.dev == Deviate::SignOrderSwapped {
        [&part_theirs[..], &part_mine[..], &sign_pk[..]].concat()
    } else {
        [&part_mine[..], &part_theirs[..], &sign_pk[..]].concat()
    };
    let mut sig = c.id.sign(&data);
    match &c.dev {
        Deviate::SignatureFlip(i) => {
            let n = sig.len() * 8;
            let i = i % n;
            sig[i / 8] ^= 1 << (i % 8);
        }
        Deviate::SignatureEmpty => sig.clear(),
        _ => {}
    }
    let my_ex = match &c.dev {
        Deviate::Replay(_, e) => e.clone(),
        _ => enc_exchange(&send_pk, &sig),
    };
    write_frame(s, &my_ex).await?;
    let secret = agreement::agree_ephemeral(
        sk,
        &agreement::UnparsedPublicKey::new(a, &x[0]),
        (),
        |m| Ok(m.to_vec()),
    )
    .map_err(|_| bad("unusable ephemeral key"))?;
    let echo = match read_frame(s).await {
        Ok(e) => e,
        Err(e) => return Err(e.into()),
    };
    // which of all algorithms opens it?
    for ciph in &CIPH {
        for hash in &HASH {
            let (k1, k2) = stretch(&secret, hash, ciph);
            for sw in 0..2 {
                let (kin, kout) = if sw == 0 { (&k1, &k2) } else { (&k2, &k1) };
                let mut rx = Aead::new(ciph, kin);
                if let Some(p) = rx.open(&echo) {
                    if p != c.rand && !c.rand.is_empty() {
                        return Err(bad("the echoed nonce is not ours"));
                    }
                    let mut tx = Aead::new(ciph, kout);
                    let mut back = their_rand.clone();
                    let mut silent = false;
                    match &c.dev {
                        Deviate::EchoWrong(i) => {
                            let n = back.len() * 8;
                            back[(i % n) / 8] ^= 1 << (i % 8);
                        }
                        Deviate::EchoShort(i) => {
                            let n = back.len();
                            back.truncate(1 + i % (n - 1));
                        }
                        Deviate::EchoEmpty => back.clear(),
                        Deviate::EchoOurOwn => back = c.rand.clone(),
                        Deviate::EchoUnderWrongKey => {
                            let e = Aead::new(ciph, kin).seal(&back);
                            write_frame(s, &e).await?;
                            silent = true;
                        }
                        _ => {}
                    }
                    if !silent {
                        let e = tx.seal(&back);
                        write_frame(s, &e).await?;
                    }
                    return Ok((
                        Done {
                            exch,
                            ciph,
                            hash,
                            tx,
                            rx,
                            remote_key: their_pub,
                            remote_epub: x[0].clone(),
                            sent: (mine, my_ex),
                        },
                        offer,
                    ));
                }
            }
        }
    }
    Err(bad("no algorithm combination opens the first encrypted frame"))
}
