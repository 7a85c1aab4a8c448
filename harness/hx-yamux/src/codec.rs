//! Y10: frame codec against an independent encoder and parser.
use crate::wire;
use bytes::{Bytes, BytesMut};
use tokio_util::codec::{Decoder, Encoder};
use tokio_yamux::frame::{Flag, Flags, Frame, FrameCodec, GoAwayCode, Type};
use vcommon::{mix, Acc, CheckSpec, Ctx, Rng, Verdict};

fn flags(v: u16) -> Flags {
    let mut f = Flags::default();
    for (b, x) in &[(1, Flag::Syn), (2, Flag::Ack), (4, Flag::Fin), (8, Flag::Rst)] {
        if v & b != 0 {
            f.add(*x);
        }
    }
    f
}

fn gen(r: &mut Rng, max: u32) -> (wire::F, Frame) {
    let fl = r.below(16) as u16;
    let id = match r.below(3) {
        0 => r.below(10) as u32,
        1 => u32::MAX - r.below(3) as u32,
        _ => r.next() as u32,
    };
    let num = match r.below(4) {
        0 => r.below(5) as u32,
        1 => u32::MAX - r.below(3) as u32,
        2 => max.wrapping_add(r.below(3) as u32),
        _ => r.next() as u32,
    };
    match r.below(4) {
        0 => {
            let n = r.size(max.min(5000) as usize);
            let n = if r.chance(1, 20) && max < 70_000 { max as usize } else { n };
            let body = r.bytes(n);
            (
                wire::F { ty: 0, flags: fl, id, len: n as u32, body: body.clone() },
                Frame::new_data(flags(fl), id, Bytes::from(body)),
            )
        }
        1 => (
            wire::F { ty: 1, flags: fl, id, len: num, body: vec![] },
            Frame::new_window_update(flags(fl), id, num),
        ),
        2 => (
            wire::F { ty: 2, flags: fl, id: 0, len: num, body: vec![] },
            Frame::new_ping(flags(fl), num),
        ),
        _ => {
            let c = r.below(3) as u32;
            let code = match c {
                0 => GoAwayCode::Normal,
                1 => GoAwayCode::ProtocolError,
                _ => GoAwayCode::InternalError,
            };
            (
                wire::F { ty: 3, flags: 0, id: 0, len: c, body: vec![] },
                Frame::new_go_away(code),
            )
        }
    }
}

fn same(f: &wire::F, g: Frame) -> Result<(), String> {
    let ty = match g.ty() {
        Type::Data => 0,
        Type::WindowUpdate => 1,
        Type::Ping => 2,
        Type::GoAway => 3,
    };
    let (len, id, fl) = (g.length(), g.stream_id(), g.flags().value());
    let (_, body) = g.into_parts();
    let body = body.map(|b| b.to_vec()).unwrap_or_default();
    if ty != f.ty || len != f.len || id != f.id || fl != f.flags || body != f.body {
        return Err(format!(
            "decoded type {} flags {} id {} length {} body {} bytes, encoded type {} flags {} id {} length {} body {} bytes (bodies equal: {})",
            ty, fl, id, len, body.len(), f.ty, f.flags, f.id, f.len, f.body.len(), body == f.body
        ));
    }
    Ok(())
}

fn case(seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[0u32, 1, 10, 1000, 5000, 65_536, 262_144]);
    let mut acc = Acc::default();
    let n = r.rus(1, 40);
    let mut bytes = vec![];
    let mut want = vec![];
    let mut enc_codec = FrameCodec::default().max_frame_size(max);
    let mut out = BytesMut::new();
    for _ in 0..n {
        let (f, g) = gen(&mut r, max);
        let before = out.len();
        let size = g.size();
        if let Err(e) = enc_codec.encode(g, &mut out) {
            return Verdict::Violation("encode".into(), format!("encoding {:?} failed: {}", f, e));
        }
        let e = wire::enc(&f);
        if out[before..] != e[..] {
            return Verdict::Violation("encoding".into(), format!("encoding of {:?} differs from the format", f));
        }
        if size != e.len() {
            return Verdict::Violation("size".into(), format!("size() is {} for an encoding of {} bytes", size, e.len()));
        }
        bytes.extend_from_slice(&e);
        want.push(f);
    }
    // a malformed tail in part of the cases
    let mut bad = None;
    if r.chance(1, 2) {
        let (mut f, _) = gen(&mut r, max);
        let mut e = wire::enc(&f);
        match r.below(3) {
            0 => {
                e[0] = r.range(1, 255) as u8;
                bad = Some("version");
            }
            1 => {
                e[1] = r.range(4, 255) as u8;
                bad = Some("type");
            }
            _ => {
                f.ty = 0;
                f.len = if r.chance(1, 2) { max + 1 } else { (u64::from(max) + 1 + r.below(u64::from(u32::MAX - max))) as u32 };
                f.body = vec![];
                e = wire::enc(&f);
                e.extend(r.bytes(50));
                bad = Some("length");
            }
        }
        bytes.extend_from_slice(&e[..e.len().min(62)]);
    }
    let mut codec = FrameCodec::default().max_frame_size(max);
    let mut buf = BytesMut::new();
    let mut pos = 0;
    let mut got = 0;
    let style = r.below(4);
    let mut err = None;
    let mut ends: Vec<usize> = vec![];
    let mut p = 0;
    for f in &want {
        p += 12 + f.body.len();
        ends.push(p);
    }
    let mut sig = mix(u64::from(max), style);
    'o: while pos < bytes.len() {
        let left = bytes.len() - pos;
        let k = match style {
            0 => 1,
            1 => r.rus(1, left.min(13)),
            2 => left,
            _ => r.rus(1, left),
        };
        buf.extend_from_slice(&bytes[pos..pos + k]);
        pos += k;
        sig = mix(sig, k as u64);
        loop {
            match codec.decode(&mut buf) {
                Ok(Some(g)) => {
                    if got >= want.len() {
                        return Verdict::Violation("extra".into(), format!("decoded frame {} of {} ({:?}), malformed {:?}", got + 1, want.len(), g, bad));
                    }
                    if let Err(e) = same(&want[got], g) {
                        return Verdict::Violation("differs".into(), format!("max {}: {}", max, e));
                    }
                    // exactly the frame's bytes are consumed
                    if pos - buf.len() != ends[got] {
                        return Verdict::Violation("consumed".into(), format!("after frame {} {} bytes are consumed instead of {}", got, pos - buf.len(), ends[got]));
                    }
                    got += 1;
                    acc.add("frames_compared", 1);
                }
                Ok(None) => {
                    // a complete frame must not be withheld
                    if got < want.len() && pos >= ends[got] {
                        return Verdict::Violation("withheld".into(), format!("frame {} is complete but not decoded", got));
                    }
                    break;
                }
                Err(e) => {
                    err = Some(e);
                    break 'o;
                }
            }
        }
    }
    if got < want.len() {
        return Verdict::Violation(
            "rejected".into(),
            format!("max {}: frame {:?} rejected: {:?}", max, (want[got].ty, want[got].flags, want[got].id, want[got].len), err.map(|e| e.to_string())),
        );
    }
    match (bad, err) {
        (Some(b), None) => return Verdict::Violation("accepted".into(), format!("header with wrong {} is not rejected (max {})", b, max)),
        (Some(_), Some(_)) => acc.add("malformed_rejected", 1),
        (None, Some(e)) => return Verdict::Violation("error".into(), format!("valid frames end in {}", e)),
        (None, None) => {
            if !buf.is_empty() {
                return Verdict::Violation("leftover".into(), format!("{} bytes left over", buf.len()));
            }
        }
    }
    acc.sig = mix(sig, seed);
    acc.nontrivial = got > 0;
    acc.sample = Some(format!("{} frames, max {}, split style {}, malformed tail {:?}", got, max, style, bad));
    Verdict::Pass(acc)
}

pub fn y10(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "frame sequences encoded, compared byte by byte with an independent encoder, split and decoded back; distinct = generated sequence and split".into(),
            assumptions: vec![],
            cases: ctx.q(300_000, 20_000_000),
            budget_s: ctx.q(8, 600),
            threads: 8,
            must_see: vec!["frames_compared", "malformed_rejected"],
        },
        |seed, _| case(seed),
    )
}
