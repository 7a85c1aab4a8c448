//! S07 ciphers, S08 peer ids.
use crate::{hs::CT, peer::*};
use bytes::BytesMut;
use multiaddr::{Multiaddr, Protocol};
use std::borrow::Cow;
use tentacle_secio::{
    crypto::{cipher::CipherType, new_stream, BoxStreamCipher, CryptoMode},
    verif_hooks::ring_cipher,
    PeerId, PublicKey, SecioKeyPair,
};
use tentacle_multiaddr as multiaddr;
use vcommon::{mix, Acc, CheckSpec, Ctx, Rng, Verdict};

fn name(c: CipherType) -> &'static str {
    match c {
        CipherType::Aes128Gcm => "AES-128-GCM",
        CipherType::Aes256Gcm => "AES-256-GCM",
        CipherType::ChaCha20Poly1305 => "CHACHA20_POLY1305",
    }
}

enum Impl {
    Own(BoxStreamCipher),
    Model(Aead),
}

impl Impl {
    fn new(k: u64, c: CipherType, key: &[u8], m: CryptoMode) -> Impl {
        match k {
            0 => Impl::Own(new_stream(c, key, m)),
            1 => Impl::Own(ring_cipher(c, key, m)),
            _ => Impl::Model(Aead::new(name(c), key)),
        }
    }
    fn seal(&mut self, d: &[u8]) -> Option<Vec<u8>> {
        match self {
            Impl::Own(c) => c.encrypt(d).ok(),
            Impl::Model(a) => Some(a.seal(d)),
        }
    }
    fn open(&mut self, d: &[u8], in_place: bool) -> Option<Vec<u8>> {
        match self {
            Impl::Own(c) => {
                if in_place && c.is_in_place() {
                    let mut b = BytesMut::from(d);
                    c.decrypt_in_place(&mut b).ok().map(|_| b.to_vec())
                } else {
                    c.decrypt(d).ok()
                }
            }
            Impl::Model(a) => {
                if d.len() < 16 {
                    a.n += 1;
                    return None;
                }
                a.open(d)
            }
        }
    }
}

const WHO: [&str; 3] = ["default implementation", "ring implementation", "model"];

fn s07_case(seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let c = *r.pick(&CT);
    let key = r.bytes(c.key_size());
    // at least one real implementation takes part
    let (e, d) = *r.pick(&[(0u64, 0u64), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1)]);
    let mut enc = Impl::new(e, c, &key, CryptoMode::Encrypt);
    let mut dec = Impl::new(d, c, &key, CryptoMode::Decrypt);
    let n = *r.pick(&[1usize, 3, 10, 300, 600]);
    let mut acc = Acc::default();
    acc.nontrivial = true;
    let ctxt = format!("{:?}, sealed by the {}, opened by the {}", c, WHO[e as usize], WHO[d as usize]);
    let tamper_at = if r.chance(2, 3) { r.us(n) } else { n };
    let mut old: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let len = match r.below(6) {
            0 => 0,
            1 => *r.pick(&[1usize, 15, 16, 17, 31, 32, 63, 64, 65]),
            2 if n < 20 => r.us(20_000),
            _ => r.size(300),
        };
        let p = r.bytes(len);
        let ip = r.chance(1, 2);
        let s = match enc.seal(&p) {
            Some(s) => s,
            None => return Verdict::Violation("seal-failed".into(), format!("{}: sealing message {} of {} bytes failed", ctxt, i, len)),
        };
        if i == tamper_at {
            let (kind, bad) = match r.below(8) {
                0 | 1 => {
                    let mut b = s.clone();
                    let k = r.us(b.len() * 8);
                    b[k / 8] ^= 1 << (k % 8);
                    ("changed bit", b)
                }
                2 => {
                    let mut b = s.clone();
                    b.truncate(r.us(s.len()));
                    ("truncation", b)
                }
                3 => {
                    let k = r.rus(1, 40);
                    ("extension", [&s[..], &r.bytes(k)[..]].concat())
                }
                4 if !old.is_empty() => ("earlier message", r.pick(&old).clone()),
                5 => ("later message", {
                    match enc.seal(&p) {
                        Some(x) => x,
                        None => s.clone(),
                    }
                }),
                6 => {
                    let mut k2 = key.clone();
                    let b = r.us(k2.len() * 8);
                    k2[b / 8] ^= 1 << (b % 8);
                    let mut o = Impl::new(e, c, &k2, CryptoMode::Encrypt);
                    for _ in 0..i {
                        o.seal(b"x");
                    }
                    match o.seal(&p) {
                        Some(x) => ("other key", x),
                        None => return Verdict::Inconclusive("seal".into()),
                    }
                }
                _ => {
                    let k = r.us(80);
                    ("random bytes", r.bytes(k))
                }
            };
            if bad != s {
                if let Some(x) = dec.open(&bad, ip) {
                    return Verdict::Violation(
                        "tampering-accepted".into(),
                        format!("{}: {} at message {} was opened to {} bytes", ctxt, kind, i, x.len()),
                    );
                }
                acc.add(&format!("rejected {}", kind), 1);
            }
            break;
        }
        match dec.open(&s, ip) {
            Some(x) if x == p => {}
            Some(_) => return Verdict::Violation("wrong-plaintext".into(), format!("{}: message {} of {} bytes opens to something else", ctxt, i, len)),
            None => return Verdict::Violation("rejected-valid".into(), format!("{}: message {} of {} bytes is refused", ctxt, i, len)),
        }
        acc.add("messages", 1);
        acc.max("message_number", i as u64 + 1);
        if old.len() < 8 {
            old.push(s);
        }
    }
    acc.add(&format!("{}-{}", ["native", "ring", "model"][e as usize], ["native", "ring", "model"][d as usize]), 1);
    acc.sig = seed;
    if seed % 100 == 0 {
        acc.sample = Some(format!("{}: {} messages, then interference at {}", ctxt, acc.get("messages"), tamper_at));
    }
    Verdict::Pass(acc)
}

pub fn s07(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which a sequence of messages was sealed and opened by two implementations of one cipher and compared with the plaintext, the last one possibly tampered with; distinct = cases (own key and messages)".into(),
            assumptions: vec!["the implementation for the browser target is not built here".into()],
            cases: ctx.q(60_000, 5_000_000),
            budget_s: ctx.q(12, 600),
            threads: 8,
            must_see: vec![
                "messages", "native-native", "native-ring", "ring-native", "native-model", "model-native", "ring-model", "model-ring",
                "rejected changed bit", "rejected truncation", "rejected earlier message", "rejected later message", "rejected other key",
            ],
        },
        |seed, _| s07_case(seed),
    )
}

// ---------------------------------------------------------------- S08

fn s08_case(seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    acc.nontrivial = true;
    acc.sig = seed;
    let bad = |k: &str, w: String| Verdict::Violation(k.into(), w);
    match r.below(3) {
        0 => {
            let id = Id::new(&mut r);
            let kp = match SecioKeyPair::secp256k1_raw_key(id.raw) {
                Ok(k) => k,
                Err(_) => return bad("key-refused", "a valid secret key is refused".into()),
            };
            let kp2 = id.pair();
            let p = kp.peer_id();
            // multihash of the compressed public key, computed independently
            let mut want = vec![0x12u8, 32];
            want.extend(sha256(&id.pk));
            if kp.public_key().inner_ref() != &id.pk {
                return bad("public-key", "the public key is not the compressed point of the secret".into());
            }
            if p.as_bytes() != &want[..] {
                return bad("id-value", format!("peer id {:?} is not the hash of the public key", p));
            }
            if kp2.peer_id() != p || kp.clone().peer_id() != p || PeerId::from_public_key(&kp.public_key()) != p || PeerId::from(kp.public_key()) != p
                || kp.public_key().peer_id() != p || !p.is_public_key(&kp.public_key())
            {
                return bad("unstable", format!("the ways to derive the id of one key disagree: {:?}", p));
            }
            if p.digest() != &want[2..] {
                return bad("digest", "the digest of the id is not the hash".into());
            }
            match PeerId::from_bytes(p.as_bytes().to_vec()) {
                Ok(q) if q == p && q.clone().into_bytes() == want => {}
                _ => return bad("bytes", format!("{:?} does not survive conversion to bytes", p)),
            }
            let t = p.to_base58();
            if bs58::decode(&t).into_vec().ok() != Some(want.clone()) {
                return bad("text", format!("text form {} does not stand for the bytes of the id", t));
            }
            match t.parse::<PeerId>() {
                Ok(q) if q == p => {}
                _ => return bad("text", format!("{:?} does not survive conversion to text", p)),
            }
            // the encoded public key keeps the identity, compressed or not
            match PublicKey::decode(&kp.public_key().encode()) {
                Some(k) if k == kp.public_key() && k.peer_id() == p => {}
                _ => return bad("key-encoding", "a public key does not survive encoding".into()),
            }
            let full = secp256k1::PublicKey::from_slice(&id.pk).map(|k| k.serialize_uncompressed().to_vec());
            if let Ok(full) = full {
                for raw in &[full, id.pk.clone()] {
                    match PublicKey::secp256k1_raw_key(raw) {
                        Ok(k) if k.peer_id() == p => {}
                        _ => return bad("key-encoding", "the same public key in another form has another id".into()),
                    }
                }
            }
            // inside an address
            let mut a: Multiaddr = "/ip4/1.2.3.4/tcp/44".parse().expect("address");
            a.push(Protocol::P2P(Cow::Owned(p.as_bytes().to_vec())));
            let text = a.to_string();
            for b in vec![text.parse::<Multiaddr>().ok(), std::convert::TryFrom::try_from(a.to_vec()).ok()] {
                let ok = b.map(|b| {
                    b.iter().any(|x| match x {
                        Protocol::P2P(h) => PeerId::from_bytes(h.to_vec()).ok() == Some(p.clone()),
                        _ => false,
                    })
                });
                if ok != Some(true) {
                    return bad("address", format!("{:?} does not survive the address {}", p, text));
                }
            }
            // another key, another id
            let o = Id::new(&mut r);
            if o.pair().peer_id() == p {
                return bad("collision", "two keys have the same id".into());
            }
            // one bit of the secret
            let mut raw = id.raw;
            let k = r.us(256);
            raw[k / 8] ^= 1 << (k % 8);
            if let Ok(x) = SecioKeyPair::secp256k1_raw_key(raw) {
                if x.peer_id() == p {
                    return bad("collision", "two secrets that differ in one bit have the same id".into());
                }
            }
            acc.add("keys", 1);
        }
        1 => {
            // arbitrary and damaged bytes
            let mut b = match r.below(4) {
                0 => {
                    let n = r.us(40);
                    r.bytes(n)
                }
                _ => PeerId::random().into_bytes(),
            };
            for _ in 0..r.us(3) {
                if b.is_empty() {
                    break;
                }
                let n = b.len();
                match r.below(4) {
                    0 => {
                        let i = r.us(n);
                        b[i] = r.next() as u8;
                    }
                    1 => b.truncate(r.us(n)),
                    2 => b.push(r.next() as u8),
                    _ => {
                        // non-canonical header
                        b[0] |= 0x80;
                        b.insert(1, 0);
                    }
                }
            }
            match PeerId::from_bytes(b.clone()) {
                Ok(p) => {
                    if p.as_bytes() != &b[..] || p.clone().into_bytes() != b {
                        return bad("bytes", format!("bytes {:?} became an id with other bytes", b));
                    }
                    if p.digest().len() != 32 || p.to_base58().parse::<PeerId>().ok() != Some(p.clone()) {
                        return bad("bytes", format!("id parsed from {:?} does not convert back", b));
                    }
                    let canonical = b.len() == 34 && b[0] == 0x12 && b[1] == 32;
                    if !canonical && (b.len() < 34 || !b[b.len() - 33..].starts_with(&[32])) {
                        return bad("invalid-accepted", format!("bytes {:?} are no peer id", b));
                    }
                    acc.add("bytes_accepted", 1);
                }
                Err(()) => {
                    if b.len() == 34 && b[0] == 0x12 && b[1] == 32 {
                        return bad("valid-refused", format!("bytes {:?} are a peer id", b));
                    }
                    acc.add("bytes_refused", 1);
                }
            }
        }
        _ => {
            let mut t = match r.below(3) {
                0 => {
                    let n = r.us(60);
                    String::from_utf8_lossy(&r.bytes(n)).to_string()
                }
                1 => {
                    let n = r.us(50);
                    bs58::encode(r.bytes(n)).into_string()
                }
                _ => PeerId::random().to_base58(),
            };
            if r.chance(1, 2) && !t.is_empty() {
                let mut c: Vec<char> = t.chars().collect();
                let i = r.us(c.len());
                match r.below(3) {
                    0 => c[i] = *r.pick(&['0', 'l', 'I', 'O', ' ', '1', 'z', '\u{e9}']),
                    1 => {
                        c.remove(i);
                    }
                    _ => c.insert(i, '1'),
                }
                t = c.into_iter().collect();
            }
            match t.parse::<PeerId>() {
                Ok(p) => {
                    if p.to_base58() != t {
                        return bad("text", format!("text {:?} became an id with text {}", t, p.to_base58()));
                    }
                    acc.add("text_accepted", 1);
                }
                Err(()) => acc.add("text_refused", 1),
            }
        }
    }
    Verdict::Pass(acc)
}

pub fn s08(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which a key pair, byte string or text went through all conversions and was compared with an independent computation; distinct = cases (own input)".into(),
            assumptions: vec!["collisions of the hash function itself are out of reach".into()],
            cases: ctx.q(60_000, 5_000_000),
            budget_s: ctx.q(10, 400),
            threads: 8,
            must_see: vec!["keys", "bytes_accepted", "bytes_refused", "text_accepted", "text_refused"],
        },
        |seed, _| s08_case(seed),
    )
}
