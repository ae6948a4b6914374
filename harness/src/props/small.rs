//! C05 (checksum) and C12 (geometry).

use super::*;
use crate::gen::*;
use crate::model::*;
use crate::refdec::Bits;
use crate::wire::*;
use bitter::{BitReader, LittleEndianReader};

// --------------------------------------------------------------------- C05

fn c05(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let n = match g.below(4) {
        0 => g.enumerate(300) as usize,
        1 => g.usize(0, 80),
        2 => *g.pick(&[15usize, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 255, 256, 4095, 4096, 4097]),
        _ => g.usize(0, 6000),
    };
    let n = if g.chance(1, 400) {
        *g.pick(&[65_535usize, 65_536, 65_537, 100_000, 262_144, 1_048_575, 1_048_576, 1_048_577, 1_500_000])
    } else if g.chance(1, 40_000) {
        (*g.pick(&[1usize << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25]) as i64 + g.range(-17, 17)) as usize
    } else {
        n
    };
    let mut d = match g.below(4) {
        _ if n > 50_000 => {
            let c = g.bytes(257);
            (0..n).map(|i| c[i % 257]).collect()
        }
        0 => vec![*g.pick(&[0u8, 0xff, 1, 0x80]); n],
        _ => g.bytes(n),
    };
    if n > 0 && g.chance(1, 4) {
        let i = g.usize(0, n - 1);
        d = vec![0; n];
        d[i] = g.below(256) as u8;
    }
    // anywhere relative to a page: the start or the end of the data at its edge, too
    let off = match g.below(4) {
        0 | 1 => g.usize(0, 17),
        2 => *g.pick(&[32usize, 64, 128, 256, 512, 1024, 2048, 4080, 4095]),
        _ => 4096 - n % 4096,
    };
    let mut padded = Vec::new();
    let got = boxcars::crc::calc_crc(placed(&mut padded, &d, off));
    let want = crc_ref(&d);
    cx.evals = 1;
    cx.label(match n {
        0 => "empty",
        1..=15 => "below one block",
        50_001.. => "more than 50,000 bytes",
        _ if n % 16 == 0 => "whole blocks",
        _ => "blocks and a rest",
    });
    if n > 0 {
        cx.nontrivial(&d);
        cx.sample = Some(format!("{n} bytes at offset {off}, crc {want:08x}: {}", short_hex(&d, 24)));
    }
    if got != want {
        return Err(format!("calc_crc of {n} bytes is {got:08x}, the documented algorithm gives {want:08x}"));
    }
    // The crc is affine over xor: a^b^c has crc(a)^crc(b)^crc(c)
    let b = if n > 50_000 {
        let c = g.bytes(127);
        (0..n).map(|i| c[i % 127]).collect()
    } else {
        g.bytes(n)
    };
    let c: Vec<u8> = d.iter().zip(&b).map(|(x, y)| x ^ y).collect();
    let z = vec![0u8; n];
    let lhs = boxcars::crc::calc_crc(&c);
    let rhs = got ^ boxcars::crc::calc_crc(&b) ^ boxcars::crc::calc_crc(&z);
    cx.evals += 1;
    if lhs != rhs {
        return Err(format!("calc_crc of {n} bytes is not affine: {lhs:08x} / {rhs:08x}"));
    }
    // any burst of up to 32 bits is detected
    if n > 0 {
        let bit = g.usize(0, n * 8 - 1);
        let mut e = d.clone();
        let burst = (g.word() | 1) as u64;
        for k in 0..32 {
            let p = bit + k;
            // most significant bit of each byte first, as the crc runs
            if burst >> k & 1 == 1 && p < n * 8 {
                e[p / 8] ^= 0x80 >> (p % 8);
            }
        }
        cx.evals += 1;
        if boxcars::crc::calc_crc(&e) == got {
            return Err(format!("a burst error at bit {bit} of {n} bytes goes undetected"));
        }
        // ... and through the parser: the CRC stored in a file guards the section
        if n >= 1 && n < 600 && g.chance(1, 6) {
            let mut s = Spec::new(ver(868, 32, 10));
            s.net = d.clone();
            let built = s.build();
            let mut bytes = built.bytes.clone();
            let r = parse(&bytes, CrcCheck::Always, NetworkParse::Never);
            if r.is_err() {
                return Err(format!("a body with the right crc is rejected: {:?}", r.err()));
            }
            bytes[built.net.clone()].copy_from_slice(&e);
            let want = crc_ref(&bytes[built.body.clone()]);
            let r = parse(&bytes, CrcCheck::Always, NetworkParse::Never);
            cx.evals += 2;
            match r {
                Err(ParseError::CrcMismatch(a, b)) if a == built.exp.content_crc && b == want => {}
                x => return Err(format!("damaged body: {:?}", x.map(|_| "parsed"))),
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C12

/// Bits a decoder has consumed.
fn used(total: usize, b: &LittleEndianReader) -> Option<usize> {
    b.bits_remaining().map(|r| total - r)
}

fn c12(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let v = match g.below(4) {
        0 => ver(868, 32, 10),
        1 => ver(868, 20, *g.pick(&[6, 7, 8, 0])),
        2 => ver(868, 20, g.i32()),
        _ => ver(0, 0, 0),
    };
    let mut v = v;
    v.major = 868;
    v.minor = 20;
    let op = g.enumerate(7);
    let start = g.usize(0, 70);
    let mut w = BitW::new();
    for _ in 0..start {
        w.bit(g.bool());
    }
    let sp = *g.pick(&[SpawnTrajectory::None, SpawnTrajectory::Location, SpawnTrajectory::LocationAndRotation]);
    let at = w.len;
    match op {
        0 | 1 | 2 => put_vec3(g, &mut w, &v),
        3 => put_rot(g, &mut w),
        4 => put_quat(g, &mut w, &Ver { net: 7, ..v }),
        5 => put_quat(g, &mut w, &Ver { net: 0, ..v }),
        _ => match sp {
            SpawnTrajectory::None => {}
            SpawnTrajectory::Location => put_vec3(g, &mut w, &v),
            SpawnTrajectory::LocationAndRotation => {
                put_vec3(g, &mut w, &v);
                put_rot(g, &mut w);
            }
        },
    }
    let end = w.len;
    // distance to the end of the data: cut, exact, or some bytes more
    let tail = match g.below(4) {
        0 => {
            let keep = g.usize(at / 8, w.bytes.len());
            w.bytes.truncate(keep);
            w.len = w.len.min(keep * 8);
            cx.label("data ends inside");
            0
        }
        1 => 0,
        2 => g.usize(0, 24),
        _ => g.usize(0, 4),
    };
    while w.len % 8 != 0 {
        w.bit(g.bool());
    }
    let extra = g.bytes(tail);
    w.bytes.extend_from_slice(&extra);
    if g.chance(1, 6) {
        let n = w.bytes.len();
        let from = (at / 8).min(n);
        let r = g.bytes(n - from);
        w.bytes[from..].copy_from_slice(&r);
        cx.label("arbitrary bits");
    }
    let d = w.bytes;
    let total = d.len() * 8;
    if at > total {
        return Ok(());
    }
    let mut rb = Bits::new(&d);
    rb.pos = at;
    let mut b = LittleEndianReader::new(&d);
    let mut skip = at;
    while skip > 0 {
        let k = skip.min(*g.pick(&[1usize, 7, 8, 13, 32, 56]));
        b.read_bits(k as u32);
        skip -= k;
    }
    if g.bool() {
        b.refill_lookahead();
    }
    fn cmp<T: PartialEq + Debug>(
        what: &'static str,
        got: Option<T>,
        want: Option<T>,
        total: usize,
        b: &LittleEndianReader,
        rb: &Bits,
    ) -> Result<(), String> {
        let ok = got == want || format!("{got:?}") == format!("{want:?}");
        if !ok {
            return Err(format!("{what}: decoded {got:?}, expected {want:?}"));
        }
        if got.is_some() && used(total, b) != Some(rb.pos) {
            return Err(format!("{what}: {:?} bits consumed, expected {}", used(total, b), rb.pos));
        }
        Ok(())
    }
    let n = v.net;
    let (what, r): (&'static str, Result<(), String>) = match op {
        0 => ("Vector3i::decode", {
            let got = Vector3i::decode(&mut b, n);
            cmp("Vector3i::decode", got, r_vec3i(&mut rb, &v), total, &b, &rb)
        }),
        1 => ("Vector3f::decode", {
            let got = Vector3f::decode(&mut b, n);
            cmp("Vector3f::decode", got, r_vec3i(&mut rb, &v).map(vec3f), total, &b, &rb)
        }),
        2 => ("Vector3i::decode", {
            let got = Vector3i::decode(&mut b, n);
            cmp("Vector3i::decode", got, r_vec3i(&mut rb, &v), total, &b, &rb)
        }),
        3 => ("Rotation::decode", {
            let got = Rotation::decode(&mut b);
            cmp("Rotation::decode", got, r_rot(&mut rb), total, &b, &rb)
        }),
        4 => ("Quaternion::decode", {
            let got = Quaternion::decode(&mut b);
            let want = (|| {
                let l = rb.n(2)? as u32;
                Some(quat_from(l, [rb.n(18)? as u32, rb.n(18)? as u32, rb.n(18)? as u32]))
            })();
            if let (Some(q), Some(_)) = (&got, &want) {
                // a rebuilt rotation has unit length
                let s = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w;
                if !s.is_nan() && (s - 1.0).abs() > 1e-5 {
                    return Err(format!("Quaternion::decode: {q:?} is not of unit length"));
                }
            }
            cmp("Quaternion::decode", got, want, total, &b, &rb)
        }),
        5 => ("Quaternion::decode_compressed", {
            let got = Quaternion::decode_compressed(&mut b);
            let want = (|| Some(quat_old([rb.n(16)? as u16, rb.n(16)? as u16, rb.n(16)? as u16])))();
            cmp("Quaternion::decode_compressed", got, want, total, &b, &rb)
        }),
        _ => ("Trajectory::from_spawn", {
            let got = Trajectory::from_spawn(&mut b, sp, n);
            let want = (|| {
                Some(match sp {
                    SpawnTrajectory::None => Trajectory { location: None, rotation: None },
                    SpawnTrajectory::Location => Trajectory { location: Some(r_vec3i(&mut rb, &v)?), rotation: None },
                    SpawnTrajectory::LocationAndRotation => {
                        Trajectory { location: Some(r_vec3i(&mut rb, &v)?), rotation: Some(r_rot(&mut rb)?) }
                    }
                })
            })();
            cmp("Trajectory::from_spawn", got, want, total, &b, &rb)
        }),
    };
    cx.label(what);
    let mut key = vec![op as u8, at as u8, n as u8];
    key.extend_from_slice(&d);
    cx.nontrivial(&key);
    cx.sample = Some(format!("{what} net version {n} at bit {at} of {total}, {} bits long: {}", end - at, short_hex(&d, 24)));
    cx.label_if(total - at >= 128, "far from the end");
    r.map_err(|m| format!("{m} (bit {at} of {total}, net version {n})"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            title: "calc_crc is the documented CRC-32",
            rule: "at least one byte of input; distinct by content",
            case: c05,
            quick: 1_500_000,
            thorough: 75_000_000,
            guided: 10_000,
            enumerated: none,
            assumptions: &["the parameters documented on calc_crc define the algorithm"],
        },
        Prop {
            id: "C12",
            title: "Vectors, rotations and quaternions decode exactly",
            rule: "any decode at some bit offset and distance from the end of the data; distinct by operation, offset, version and content",
            case: c12,
            quick: 6_000_000,
            thorough: 300_000_000,
            guided: 200_000,
            enumerated: none,
            assumptions: &["fused multiply-add and square root round once, as IEEE 754 demands"],
        },
    ]
}
