//! The properties.

mod net;
mod serial;
mod small;
mod whole;

use crate::engine::*;
use crate::gen::Built;
use crate::known;
use crate::refdec::*;
use boxcars::*;
use serde::Serialize;
use std::fmt::Debug;

pub fn all() -> &'static [Prop] {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<Prop>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        v.extend(whole::props());
        v.extend(net::props());
        v.extend(small::props());
        v.extend(serial::props());
        v.sort_by_key(|p| p.id);
        v
    })
}

pub fn none() -> u64 {
    0
}

pub fn parse(d: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<Replay, ParseError> {
    ParserBuilder::new(d).with_crc_check(crc).with_network_parse(net).parse()
}

pub fn must(d: &[u8]) -> Result<Replay, ParseError> {
    parse(d, CrcCheck::Always, NetworkParse::Always)
}

/// The value's bits, as far as serde sees them; quaternion components that are
/// not numbers are alike.
fn exact_bits<T: Serialize + ?Sized>(t: &T) -> Option<Vec<u8>> {
    crate::binser::to_vec_canonical(t).ok()
}

/// Equality to the bit (so -0.0 is not 0.0 and NaNs keep their payload), for
/// values with a serialized form.
pub fn same<T: PartialEq + Debug + Serialize + ?Sized>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if exact_bits(got) == exact_bits(want) && got == want {
        return Ok(());
    }
    same_dbg(what, got, want)?;
    if exact_bits(got) == exact_bits(want) {
        // only NaNs make the two unequal
        return Ok(());
    }
    Err(format!("{what} differs in the bits of a float: {}", format!("{got:?}").chars().take(200).collect::<String>()))
}

/// Equality in which all NaNs are alike.
pub fn same_dbg<T: PartialEq + Debug + ?Sized>(what: &str, got: &T, want: &T) -> Result<(), String> {
    let a = format!("{got:?}");
    let b = format!("{want:?}");
    if a == b {
        return Ok(());
    }
    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let from = (0..=at.saturating_sub(60)).rev().find(|&i| a.is_char_boundary(i) && b.is_char_boundary(i)).unwrap_or(0);
    let cut = |s: &str| s[from..].chars().take(160).collect::<String>();
    Err(format!("{what} differs at character {at} of its debug form:\n  got  ..{}\n  want ..{}", cut(&a), cut(&b)))
}

pub fn same_replay(got: &Replay, want: &Replay) -> Result<(), String> {
    same("header_size", &got.header_size, &want.header_size)?;
    same("header_crc", &got.header_crc, &want.header_crc)?;
    same("version", &(got.major_version, got.minor_version, got.net_version), &(want.major_version, want.minor_version, want.net_version))?;
    same("game_type", &got.game_type, &want.game_type)?;
    same("properties", &got.properties, &want.properties)?;
    same("content_size", &got.content_size, &want.content_size)?;
    same("content_crc", &got.content_crc, &want.content_crc)?;
    same("levels", &got.levels, &want.levels)?;
    same("keyframes", &got.keyframes, &want.keyframes)?;
    same("debug_info", &got.debug_info, &want.debug_info)?;
    same("tick_marks", &got.tick_marks, &want.tick_marks)?;
    same("packages", &got.packages, &want.packages)?;
    same("objects", &got.objects, &want.objects)?;
    same("names", &got.names, &want.names)?;
    same("class_indices", &got.class_indices, &want.class_indices)?;
    same("net_cache", &got.net_cache, &want.net_cache)?;
    same_frames(&got.network_frames, &want.network_frames)
}

pub fn same_frames(got: &Option<NetworkFrames>, want: &Option<NetworkFrames>) -> Result<(), String> {
    match (got, want) {
        (Some(a), Some(b)) => {
            if a.frames.len() != b.frames.len() {
                return Err(format!("{} frames decoded, {} expected", a.frames.len(), b.frames.len()));
            }
            for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
                same(&format!("frame {i}"), x, y)?;
            }
            Ok(())
        }
        (None, None) => Ok(()),
        (a, b) => Err(format!(
            "network frames: got {}, expected {}",
            if a.is_some() { "some" } else { "none" },
            if b.is_some() { "some" } else { "none" }
        )),
    }
}

/// boxcars against the reference decoder, on any input.
pub fn vs_ref(cx: &mut Cx, d: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<(Result<Replay, ParseError>, Info), String> {
    let real = parse(d, crc, net);
    let (want, info) = ref_parse(d, crc, net, false);
    match agree(&real, &want, &info) {
        Ok(()) => Ok((real, info)),
        Err(m) => {
            if info.stale {
                let (want2, _) = ref_parse(d, crc, net, true);
                if agree(&real, &want2, &info).is_ok() {
                    return Err(format!("update of a deleted actor accepted: {m}"));
                }
            }
            cx.attach("input", d);
            Err(m)
        }
    }
}

fn agree(real: &Result<Replay, ParseError>, want: &Result<Replay, RErr>, info: &Info) -> Result<(), String> {
    match (real, want) {
        (Ok(a), Ok(b)) => same_replay(a, b),
        (Err(e), Err(w)) => {
            let c = classify(e);
            if c == *w || (info.near_end() && same_err(&c, w)) {
                Ok(())
            } else {
                Err(format!("wrong error: got {c:?}, expected {w:?}"))
            }
        }
        (Ok(_), Err(w)) => Err(format!("parse succeeded, expected {w:?}")),
        (Err(e), Ok(_)) => Err(format!("parse failed with {:?}, expected success", classify(e))),
    }
}

pub fn check_same_but_frames(got: &Replay, b: &Built) -> Result<(), String> {
    let mut want = b.exp.clone();
    want.network_frames = got.network_frames.clone();
    same_replay(got, &want)
}

/// Formats an error every way a user can and walks its source chain.
pub fn exercise_error(e: &ParseError) -> String {
    let s = format!("{e}");
    let _ = format!("{e:?}");
    let mut n = 0;
    let mut cur: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = cur {
        let _ = x.to_string();
        cur = x.source();
        n += 1;
        if n > 100_000 {
            panic!("endless source chain");
        }
    }
    s
}

/// Reference against boxcars on the whole corpus; a development aid.
pub fn corpus_report() -> i32 {
    let mut bad = 0;
    for (name, d) in crate::gen::corpus(usize::MAX) {
        let mut cx = Cx::default();
        match vs_ref(&mut cx, d, CrcCheck::Always, NetworkParse::Always) {
            Ok((r, info)) => println!(
                "ok   {name} {} frames {:?} pairs {} known {:?}",
                if r.is_ok() { "parsed" } else { "rejected" },
                r.ok().and_then(|x| x.network_frames.map(|f| f.frames.len())),
                info.pairs,
                cx.known.len()
            ),
            Err(m) => {
                bad += 1;
                println!("DIFF {name} {m}");
            }
        }
    }
    bad
}
