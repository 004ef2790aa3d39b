//! What a peer that is connected but not to be trusted puts on the wire instead of a real packet.
use crate::rng::Rng;

/// the altered packet, or None: leave it as it is
pub fn alter(r: &mut Rng, real: &[u8]) -> Option<Vec<u8>> {
    let mut v = real.to_vec();
    match r.range(0, 9) {
        0 => {
            // alter some bytes
            for _ in 0..r.range(1, 4) {
                if !v.is_empty() {
                    let i = r.range(0, v.len() as i64 - 1) as usize;
                    v[i] = r.range(0, 255) as u8;
                }
            }
        }
        1 => v.truncate(r.range(0, v.len() as i64) as usize),
        2 => {
            for _ in 0..r.range(1, 60) {
                v.push(r.range(0, 255) as u8);
            }
        }
        3 => v = (0..r.range(0, 1150)).map(|_| r.range(0, 255) as u8).collect(),
        4 => {
            // keep the header, invent the rest
            let keep = (r.range(8, 24) as usize).min(v.len());
            v.truncate(keep);
            for _ in 0..r.range(0, 200) {
                let x = if r.range(0, 3) == 0 { 255 } else { r.range(0, 12) };
                v.push(x as u8);
            }
        }
        5 => {
            // one extreme byte
            if !v.is_empty() {
                let i = r.range(0, v.len() as i64 - 1) as usize;
                v[i] = *r.pick(&[0u8, 0x7f, 0x80, 0xff, 0xc0, 0x40]);
            }
        }
        // a piece of a message: the numbers in its header are the attacker's
        6 | 7 if v.len() >= 13 => v = fragment(r, &v),
        // whole messages with contents of the attacker's choice
        8 if v.len() >= 13 => v = batch(r, &v),
        _ => return None,
    }
    Some(v)
}

fn varint(v: &mut Vec<u8>, x: u64) {
    if x < 1 << 6 {
        v.push(x as u8);
    } else if x < 1 << 14 {
        v.extend(((x as u16) | 1 << 14).to_be_bytes());
    } else if x < 1 << 30 {
        v.extend(((x as u32) | 2 << 30).to_be_bytes());
    } else {
        v.extend((x | 3 << 62).to_be_bytes());
    }
}
fn number(r: &mut Rng) -> u64 {
    match r.range(0, 7) {
        0 => r.range(0, 3) as u64,
        1 => r.range(0, 70) as u64,
        2 => r.range(0, 20_000) as u64,
        3 => (1 << 16) - r.range(0, 2) as u64,
        4 => (1 << 30) - r.range(0, 2) as u64,
        5 => 1 << r.range(20, 61),
        6 => (1u64 << 62) - 1 - r.range(0, 2) as u64,
        _ => (1u64 << r.range(32, 62)) / 1182,
    }
}
/// a fragment under the header of a real packet
fn fragment(r: &mut Rng, real: &[u8]) -> Vec<u8> {
    let mut v = real[..13].to_vec();
    v[0] = 1;
    v.push(r.range(0, 16) as u8);
    v.extend((r.range(0, 0xffff) as u16).to_be_bytes());
    let (i, n) = match r.range(0, 4) {
        0 => (0, number(r)),
        1 => {
            let i = number(r);
            (i, i + r.range(0, 2) as u64)
        }
        2 => {
            let n = number(r);
            (n.saturating_sub(r.range(0, 2) as u64), n)
        }
        3 => (r.range(0, 4) as u64, number(r)),
        _ => (number(r), number(r)),
    };
    let top = (1 << 62) - 1;
    varint(&mut v, i.min(top));
    varint(&mut v, n.min(top));
    if i == 0 && r.range(0, 9) > 0 {
        v.push(r.range(0, 2) as u8);
    }
    let len = *r.pick(&[0u64, 1, 30, 500, 1000, 1100]);
    varint(&mut v, if r.range(0, 5) == 0 { number(r).min(top) } else { len });
    v.resize(v.len() + len as usize, 7);
    v
}
/// messages on one channel under the header of a real packet
fn batch(r: &mut Rng, real: &[u8]) -> Vec<u8> {
    let mut v = real[..13].to_vec();
    v[0] = 0;
    v.push(r.range(0, 16) as u8);
    let n = r.range(1, 4);
    v.push(if r.range(0, 5) == 0 { 255 } else { n as u8 });
    for _ in 0..n {
        if r.range(0, 2) > 0 {
            v.push(1);
            v.extend((r.range(0, 0xffff) as u16).to_be_bytes());
        } else {
            v.push(0);
        }
        // type, identifier, length of what follows
        let mut m = vec![];
        varint(&mut m, r.range(0, 9) as u64);
        if r.range(0, 3) > 0 {
            for _ in 0..8 {
                m.push(r.range(0, 255) as u8);
            }
        }
        let top = (1 << 62) - 1;
        varint(&mut m, number(r).min(top));
        for _ in 0..r.range(0, 40) {
            m.push(if r.range(0, 3) == 0 { 255 } else { r.range(0, 12) as u8 });
        }
        varint(&mut v, m.len() as u64);
        v.extend(m);
    }
    v
}
