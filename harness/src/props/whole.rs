//! Whole file properties: C01-C04, C06, C07, C13, C16-C19, C21.

use super::*;
use crate::alloc::measure;
use crate::gen::*;
use crate::model::*;
use crate::tables::{ATTRS, PARENTS};
use crate::wire::*;
use std::collections::BTreeMap;
use std::ops::Range;
use std::sync::{Arc, Mutex};

pub const CRCS: [CrcCheck; 3] = [CrcCheck::Always, CrcCheck::OnError, CrcCheck::Never];
pub const NETS: [NetworkParse; 3] = [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never];

// ------------------------------------------------------------------ files

/// A replay file with known section boundaries.
#[derive(Clone)]
pub struct File {
    pub d: Vec<u8>,
    pub header: Range<usize>,
    pub body: Range<usize>,
    pub net: Range<usize>,
    pub what: &'static str,
}

fn of_built(b: &Built, what: &'static str) -> File {
    File { d: b.bytes.clone(), header: b.header.clone(), body: b.body.clone(), net: b.net.clone(), what }
}

/// One of the repository's own replays.
fn real_file(g: &mut G, max: usize) -> Option<File> {
    let c = corpus(max);
    if c.is_empty() {
        return None;
    }
    let (_, d) = g.pick(c);
    file_of(d, "real replay")
}

fn file_of(d: &[u8], what: &'static str) -> Option<File> {
    let (_, info) = ref_parse(d, CrcCheck::Never, NetworkParse::Never, false);
    let net = info.net?;
    let rd = |at: usize| d.get(at..at + 4).map(|b| i32::from_le_bytes(b.try_into().unwrap()) as usize);
    let hs = rd(0)?;
    let bs = rd(8 + hs)?;
    let header = 8..8 + hs;
    let body = 16 + hs..16 + hs + bs;
    if body.end > d.len() || net.0 < body.start || net.1 > body.end {
        return None;
    }
    Some(File { d: d.to_vec(), header, body, net: net.0..net.1, what })
}

/// An undamaged file; whether its network data decodes is left open.
fn any_file(g: &mut G, real_max: usize) -> File {
    match g.weighted(&[4, 6, 2]) {
        0 => {
            let (mut s, _) = any_spec(g);
            if g.chance(1, 6) {
                let (most, bytes) = *g.pick(&[(40, 900), (70, 4_000), (300, 12_000)]);
                crowd(g, &mut s, most, bytes);
                return of_built(&s.build(), "several longer lists");
            }
            if g.chance(1, 4) {
                s.cache = any_cache(g, 3);
                s.objects = texts(g, 4);
            }
            of_built(&s.build(), "arbitrary contents")
        }
        1 => of_built(&crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts { fault: false, ..Default::default() }).b, "network history"),
        _ => match real_file(g, real_max) {
            Some(f) => f,
            None => of_built(&Spec::new(ver(868, 20, 2)).build(), "empty file"),
        },
    }
}

/// Two sections with right sizes and checksums.
pub fn assemble(h: &[u8], b: &[u8], tail: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(h.len() + b.len() + tail.len() + 16);
    put_i32(&mut o, h.len() as i32);
    put_u32(&mut o, crc_ref(h));
    o.extend_from_slice(h);
    put_i32(&mut o, b.len() as i32);
    put_u32(&mut o, crc_ref(b));
    o.extend_from_slice(b);
    o.extend_from_slice(tail);
    o
}

/// `f` with other network data, its size field adjusted.
fn with_net(f: &File, net: &[u8]) -> Vec<u8> {
    let mut b = f.d[f.body.start..f.net.start - 4].to_vec();
    put_i32(&mut b, net.len() as i32);
    b.extend_from_slice(net);
    b.extend_from_slice(&f.d[f.net.end..f.body.end]);
    assemble(&f.d[f.header.clone()], &b, &[])
}

/// Declares other section sizes in a copy `d` of `f` and puts the checksums right:
/// a size bounds what its checksum covers, not what is read.
fn redeclare(g: &mut G, d: &mut [u8], f: &File, over: bool) {
    let n = f.d.len();
    for (at, section) in [(0, &f.header), (f.header.end, &f.body)] {
        if g.chance(1, 3) {
            continue;
        }
        let len = section.len();
        let most = if over { n.saturating_sub(section.start) } else { len };
        let v = match g.below(6) {
            0 => 0,
            1 => len.saturating_sub(1),
            2 => (len + 1).min(most),
            3 => most,
            _ => g.usize(0, most),
        };
        d[at..at + 4].copy_from_slice(&(v as i32).to_le_bytes());
    }
    fix_crcs(d, f.header.end);
}

/// A damaged copy of `f`.
fn damage(g: &mut G, f: &File) -> (Vec<u8>, &'static str) {
    let h = f.d[f.header.clone()].to_vec();
    let b = f.d[f.body.clone()].to_vec();
    match g.weighted(&[2, 3, 4, 4, 1, 1]) {
        5 => {
            let mut d = f.d.clone();
            redeclare(g, &mut d, f, true);
            (d, "sizes that do not match the sections, checksums right")
        }
        0 => {
            let mut d = f.d.clone();
            let n = d.len();
            mutate(g, &mut d, 0..n);
            (d, "damage anywhere")
        }
        1 => {
            let mut h = h;
            let n = h.len();
            mutate(g, &mut h, 0..n);
            (assemble(&h, &b, &[]), "header damaged, checksum right")
        }
        2 => {
            let mut b = b;
            let n = b.len();
            let r = if g.bool() { 0..f.net.start - f.body.start } else { f.net.end - f.body.start..n };
            mutate(g, &mut b, r);
            (assemble(&h, &b, &[]), "body damaged, checksum right")
        }
        3 => {
            let mut n = f.d[f.net.clone()].to_vec();
            let len = n.len();
            mutate(g, &mut n, 0..len);
            (with_net(f, &n), "network data damaged, checksum right")
        }
        _ => {
            let cut = g.usize(0, f.d.len());
            (f.d[..cut].to_vec(), "cut off")
        }
    }
}

fn same_result(what: &str, a: &Result<Replay, ParseError>, b: &Result<Replay, ParseError>) -> Result<(), String> {
    match (a, b) {
        (Ok(x), Ok(y)) => same_replay(x, y).map_err(|m| format!("{what}: {m}")),
        (Err(x), Err(y)) => same_dbg(what, x, y),
        (Ok(_), Err(e)) => Err(format!("{what}: ok and {e:?}").chars().take(600).collect()),
        (Err(e), Ok(_)) => Err(format!("{what}: {e:?} and ok").chars().take(600).collect()),
    }
}

// --------------------------------------------------------------------- C01

/// Header properties nested `depth` levels deep.
fn nested(g: &mut G, depth: usize, style: u64) -> Vec<u8> {
    let mut h = Vec::new();
    put_i32(&mut h, 868);
    put_i32(&mut h, 12);
    put_str(&mut h, "x");
    let mut ends = Vec::new();
    for i in 0..depth {
        put_str(&mut h, "k");
        let array = match style {
            0 => false,
            1 => true,
            _ => i % 2 == 0,
        };
        put_str(&mut h, if array { "ArrayProperty" } else { "StructProperty" });
        put_u32(&mut h, 0);
        put_u32(&mut h, 0);
        if array {
            put_i32(&mut h, 1);
        } else {
            put_str(&mut h, "s");
        }
        ends.push(());
    }
    if !g.chance(1, 3) {
        for _ in 0..=ends.len() {
            put_str(&mut h, "None");
        }
    }
    h
}

fn exercise(d: &[u8], cx: &mut Cx, json: bool) -> Result<(), String> {
    for (i, crc) in CRCS.into_iter().enumerate() {
        for (j, net) in NETS.into_iter().enumerate() {
            cx.evals += 1;
            match parse(d, crc, net) {
                Ok(r) => {
                    cx.label("accepted under some option");
                    if json && i == 2 && j == 1 {
                        serde_json::to_vec(&r).map_err(|e| format!("a parsed replay does not serialize: {e}"))?;
                    }
                    if j == 1 && r.network_frames.is_some() {
                        cx.label("network data decoded");
                    }
                }
                Err(e) => {
                    cx.label("rejected under some option");
                    let s = exercise_error(&e);
                    if s.is_empty() {
                        return Err("error without a message".into());
                    }
                }
            }
        }
    }
    Ok(())
}

/// Files of more than 2 GiB, where 32-bit offsets end. Nearly all of it is network
/// data, zeros that take no memory until somebody looks at them.
fn giant(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    cx.label("more than 2 GiB");
    let mut s = Spec::new(ver(868, 32, 10));
    s.objects = vec![Text::plain("Core.Object")];
    if g.bool() {
        s.props.push(simple_prop("NumFrames", &HeaderProp::Int(*g.pick(&[1, 3]))));
    }
    let b = s.build();
    let net = *g.pick(&[i32::MAX, i32::MAX - 1, i32::MAX - 40, 1 << 30]);
    let at = b.net.start;
    let mut tail = b.bytes[b.net.end..].to_vec();
    let broken = g.below(3);
    match broken {
        0 => {}
        1 => tail.truncate(g.usize(0, tail.len() - 1)),
        _ => {
            // the list of debug entries comes first
            tail[..4].copy_from_slice(&(*g.pick(&[25_001i32, -1, i32::MIN, i32::MAX])).to_le_bytes());
        }
    }
    let end = at + net as usize;
    let mut d = vec![0u8; end + tail.len()];
    d[..at].copy_from_slice(&b.bytes[..at]);
    d[end..].copy_from_slice(&tail);
    d[at - 4..at].copy_from_slice(&net.to_le_bytes());
    // the content is longer than its size can say
    let content = (d.len() - b.body.start).min(i32::MAX as usize) as i32;
    d[b.body.start - 8..b.body.start - 4].copy_from_slice(&content.to_le_bytes());
    cx.sample = Some(format!("{} bytes, {net} of them network data", d.len()));
    cx.nontrivial(format!("{} {net} {broken} {}", d.len(), s.props.len()).as_bytes());
    for n in NETS {
        cx.evals += 1;
        match (parse(&d, CrcCheck::Never, n), broken) {
            (Ok(r), 0) => {
                if r.objects != ["Core.Object"] || r.network_frames.is_some_and(|f| !f.frames.is_empty()) {
                    return Err("other contents".into());
                }
            }
            (Ok(_), _) => return Err("accepted although the part behind the network data is broken".into()),
            (Err(e), 0) => return Err(format!("rejected: {e}")),
            (Err(e), _) => {
                exercise_error(&e);
                if let ParseError::ParseError(part, offset, _) = &e {
                    if *offset < end.min(i32::MAX as usize) as i32 {
                        return Err(format!("{part} is said to be at {offset}, in front of or within the network data"));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Integers of the header set to numbers at the ends of their range; the counts and limits
/// the library computes with first of all.
fn extreme_ints(g: &mut G, d: &mut [u8], header: std::ops::Range<usize>) {
    const KIND: &[u8] = b"IntProperty\0";
    let all: Vec<usize> = (header.start..header.end.saturating_sub(24)).filter(|&i| d[i..].starts_with(KIND)).collect();
    let known: Vec<usize> = all.iter().copied().filter(|&i| d[..i - 4].ends_with(b"NumFrames\0") || d[..i - 4].ends_with(b"MaxChannels\0")).collect();
    for _ in 0..g.usize(1, 2) {
        let from = if known.is_empty() || g.chance(1, 3) { &all } else { &known };
        if from.is_empty() {
            return;
        }
        let at = *g.pick(from) + KIND.len() + 8;
        let v = *g.pick(&[i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, -1, 0, 1, 1 << 30, 65_535, 65_536, 1 << 24]);
        d[at..at + 4].copy_from_slice(&v.to_le_bytes());
    }
}

fn c01(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    if g.enumerate(4096) == 99 {
        return giant(g, cx);
    }
    let d = match g.weighted(&[2, 12, 3, 2, 4]) {
        0 => {
            cx.label("random bytes");
            let n = *g.pick(&[0usize, 4, 8, 12, 16, 17, 40, 100, 400]);
            g.bytes(n)
        }
        1 => {
            let f = any_file(g, 120_000);
            cx.label(f.what);
            let (mut d, how) = if g.chance(1, 6) { (f.d.clone(), "extreme header number") } else { damage(g, &f) };
            cx.label(how);
            if how == "extreme header number" {
                extreme_ints(g, &mut d, f.header.clone());
            } else if g.chance(1, 4) {
                let n = d.len();
                mutate(g, &mut d, 0..n);
            }
            d
        }
        2 => {
            cx.label("network history with a fault");
            let c = crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts { fault: true, ..Default::default() });
            let f = of_built(&c.b, "");
            if g.bool() { f.d.clone() } else { damage(g, &f).0 }
        }
        3 => {
            cx.label("deep nesting");
            let depth = *g.pick(&[1usize, 10, 63, 64, 65, 127, 128, 129, 1000, 5000, 20_000, 60_000]);
            let style = g.below(3);
            let h = nested(g, depth, style);
            let s = Spec::new(ver(868, 12, 0));
            assemble(&h, &s.body_bytes().0, &[])
        }
        _ => {
            cx.label("random network data");
            let w = world(g, &WorldOpts::default());
            let n = g.usize(0, 300);
            let raw = g.bytes(n);
            let mut bw = BitW::new();
            // a plausible frame start, so that decoding gets somewhere
            bw.f32(1.0);
            bw.f32(0.03);
            if !w.actors.is_empty() && g.chance(2, 3) {
                let id = *g.pick(&w.ids);
                let obj = *g.pick(&w.actors);
                put_new(g, &mut bw, &w, id, obj);
                let c = w.res.caches[obj as usize].as_ref().unwrap();
                bw.bit(true);
                bw.int_max(id as u64, u64::from(w.max_channels));
                bw.bit(true);
                bw.bit(false);
                bw.bit(true);
                let ok: Vec<i32> = c.attrs.keys().copied().filter(|s| *s >= 0 && i64::from(*s) < i64::from(c.max())).collect();
                if !ok.is_empty() {
                    bw.int_max(*g.pick(&ok) as u64, c.max().max(0) as u64);
                }
            }
            bw.raw(&raw);
            let l = bw.bytes.len() as i32;
            let nf = *g.pick(&[1i32, 1, 2, 3, 10, l, l + 1, i32::MAX, i32::MAX - 1, i32::MIN, -1]);
            w.spec(Some(nf), &bw).build().bytes
        }
    };
    cx.attach("input", &d);
    cx.nontrivial(&d);
    cx.sample = Some(format!("{} bytes: {}", d.len(), short_hex(&d, 40)));
    let before = d.clone();
    let r = exercise(&d, cx, d.len() < 150_000);
    if d != before {
        return Err("the input changed".into());
    }
    r
}

// --------------------------------------------------------------------- C02

fn accessors(props: &[(String, HeaderProp)]) -> Result<u32, String> {
    let mut n = 0;
    for (k, p) in props {
        n += 1;
        let want: [bool; 7] = match p {
            HeaderProp::Array(_) => [true, false, false, false, false, false, false],
            HeaderProp::Bool(_) => [false, true, false, false, false, false, false],
            HeaderProp::Float(_) => [false, false, true, false, false, false, false],
            HeaderProp::QWord(_) => [false, false, false, true, false, false, false],
            HeaderProp::Int(_) => [false, false, false, false, true, false, false],
            HeaderProp::Str(_) | HeaderProp::Name(_) => [false, false, false, false, false, true, false],
            HeaderProp::Byte { .. } => [false, false, false, false, false, false, true],
            HeaderProp::Struct { .. } => [false; 7],
        };
        let got = [
            p.as_array().is_some(),
            p.as_bool().is_some(),
            p.as_float().is_some(),
            p.as_u64().is_some(),
            p.as_i32().is_some(),
            p.as_string().is_some(),
            p.is_byte(),
        ];
        if got != want {
            return Err(format!("accessors of {k:?} {p:?}: array/bool/float/u64/i32/string/byte are {got:?}"));
        }
        let ok = match p {
            HeaderProp::Array(a) => p.as_array() == Some(a) || format!("{:?}", p.as_array()) == format!("{:?}", Some(a)),
            HeaderProp::Bool(b) => p.as_bool() == Some(*b),
            HeaderProp::Float(f) => p.as_float().map(f32::to_bits) == Some(f.to_bits()),
            HeaderProp::QWord(x) => p.as_u64() == Some(*x),
            HeaderProp::Int(x) => p.as_i32() == Some(*x),
            HeaderProp::Str(s) | HeaderProp::Name(s) => p.as_string() == Some(s.as_str()),
            _ => true,
        };
        if !ok {
            return Err(format!("an accessor of {k:?} does not return the value in {p:?}"));
        }
        match p {
            HeaderProp::Array(a) => {
                for x in a {
                    n += accessors(x)?;
                }
            }
            HeaderProp::Struct { fields, .. } => n += accessors(fields)?,
            _ => {}
        }
    }
    Ok(n)
}

fn c02(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let (s, st) = any_spec(g);
    let b = s.build();
    cx.attach("input", &b.bytes);
    cx.label_if(s.ver.has_net(), "net version present");
    cx.label_if(s.ver.quirks(), "version 0.0");
    cx.label_if(st.depth >= 1, "nested properties");
    cx.label_if(st.depth >= 3, "deeply nested properties");
    cx.label_if(st.dup, "duplicate keys");
    cx.label_if(st.many, "many properties in one map");
    cx.label_if(st.skipped > 0, "omitted byte property");
    cx.label_if(st.wrong_size, "wrong property sizes");
    cx.label_if(st.empty, "empty array");
    cx.evals += 2;
    for crc in CRCS {
        let r = parse(&b.bytes, crc, NetworkParse::Never).map_err(|e| format!("a well formed file was rejected ({crc:?}): {e:?}"))?;
        same_replay(&r, &b.exp)?;
        accessors(&r.properties)?;
    }
    if st.nodes > 0 {
        cx.nontrivial(&b.bytes[b.header.clone()]);
        cx.sample = Some(format!("version {:?}, {} properties, depth {}: {}", s.ver, st.nodes, st.depth, short_hex(&b.bytes[b.header.clone()], 48)));
    }
    // damaged headers against the reference
    for _ in 0..4 {
        let mut h = b.bytes[b.header.clone()].to_vec();
        let n = h.len();
        let d = if g.chance(1, 4) {
            // a file that ends inside the header, sizes and all
            h.truncate(cut_at(g, &h));
            let mut d = assemble(&h, &[], &[]);
            d.truncate(8 + h.len());
            cx.label("the file ends inside the header");
            d
        } else {
            mutate(g, &mut h, 0..n);
            assemble(&h, &b.bytes[b.body.clone()], &[])
        };
        let crc = *g.pick(&CRCS);
        cx.evals += 1;
        let (r, info) = vs_ref(cx, &d, crc, NetworkParse::Never)?;
        match &r {
            Ok(r) => {
                cx.label("damaged header still readable");
                accessors(&r.properties)?;
            }
            Err(e) => {
                cx.label("damaged header rejected");
                c19_error(&d, e, &info)?;
            }
        }
    }
    Ok(())
}

/// Where to end some data short: anywhere, or in the last bytes of a text.
fn cut_at(g: &mut G, d: &[u8]) -> usize {
    let ends: Vec<usize> = (1..d.len()).filter(|&i| d[i] == 0 && d[i - 1].is_ascii_graphic()).collect();
    if g.bool() && !ends.is_empty() {
        (*g.pick(&ends) + g.usize(0, 2)).saturating_sub(1).min(d.len() - 1)
    } else {
        g.usize(0, d.len() - 1)
    }
}

// --------------------------------------------------------------------- C03

fn c03(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let mut s = Spec::new(version(g));
    fill_body(g, &mut s);
    s.objects = texts(g, 5);
    s.cache = any_cache(g, 4);
    let n = *g.pick(&[0usize, 1, 7, 64, 300]);
    s.net = g.bytes(n);
    // longer lists now and then
    if g.chance(1, 24) {
        let (most, bytes) = *g.pick(&[(300, 4_000), (5_000, 60_000), (25_000, 600_000), (25_000, 2_000_000)]);
        let most = if most > 300 && g.below(6) != 0 { 300 } else { most };
        crowd(g, &mut s, most, bytes);
        cx.label("several longer lists");
    } else if g.chance(1, 12) {
        let n = match g.below(6) {
            // up to the decoder's limit on list lengths
            0 => *g.pick(&[25_000usize, 16_384, 16_385, 24_999, 10_001, 20_000]),
            _ => *g.pick(&[100usize, 1000, 5000, 255, 256, 257, 1025]),
        };
        let which = g.below(10);
        if n > 10_000 {
            cx.label("list of more than 10,000");
        }
        match which {
            0 => s.levels = (0..n).map(|i| Text::plain(&i.to_string())).collect(),
            1 => s.keyframes = (0..n).map(|i| (i as u32, i as i32, -(i as i32))).collect(),
            2 => s.debug = (0..n).map(|i| (i as i32, Text::plain(&i.to_string()), Text::empty())).collect(),
            3 => s.ticks = (0..n).map(|i| (Text::plain(&i.to_string()), i as i32)).collect(),
            4 => s.packages = (0..n).map(|i| Text::plain(&i.to_string())).collect(),
            5 => s.objects = (0..n).map(|i| Text::plain(&i.to_string())).collect(),
            6 => s.names = (0..n).map(|i| Text::plain(&i.to_string())).collect(),
            7 => s.classes = (0..n).map(|i| (i.to_string(), i as i32)).collect(),
            8 => {
                let properties = (0..n).map(|i| CacheProp { object_ind: i as i32, stream_id: -(i as i32) }).collect();
                s.cache.push(ClassNetCache { object_ind: 1, parent_id: 2, cache_id: 3, properties });
            }
            _ => {
                s.cache = (0..n)
                    .map(|i| ClassNetCache { object_ind: i as i32, parent_id: 1, cache_id: -(i as i32), properties: vec![] })
                    .collect()
            }
        }
        cx.label("long list");
    }
    let mut b = s.build();
    if g.chance(1, 3) {
        s.trailing = behind(g, &b.bytes, b.header.end);
        b = s.build();
        cx.label("data behind the body");
    }
    cx.attach("input", &b.bytes);
    cx.label_if(!s.cache.is_empty(), "class cache");
    cx.label_if(!s.keyframes.is_empty(), "keyframes");
    cx.label_if(!s.debug.is_empty(), "debug info");
    cx.label_if(!s.ticks.is_empty(), "tick marks");
    cx.label_if(!s.classes.is_empty(), "class indices");
    for crc in CRCS {
        cx.evals += 1;
        let r = parse(&b.bytes, crc, NetworkParse::Never).map_err(|e| format!("a well formed file was rejected ({crc:?}): {e:?}"))?;
        same_replay(&r, &b.exp)?;
    }
    let filled = [
        s.levels.len(),
        s.keyframes.len(),
        s.debug.len(),
        s.ticks.len(),
        s.packages.len(),
        s.objects.len(),
        s.names.len(),
        s.classes.len(),
        s.cache.len(),
    ];
    if filled.iter().filter(|x| **x > 0).count() >= 3 {
        cx.nontrivial(&b.bytes[b.body.clone()]);
        cx.sample = Some(format!("list lengths {filled:?}, {} network bytes: {}", s.net.len(), short_hex(&b.bytes[b.body.clone()], 48)));
    }
    vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    for _ in 0..4 {
        let mut body = b.bytes[b.body.clone()].to_vec();
        let n = body.len();
        let d = if g.chance(1, 4) {
            body.truncate(cut_at(g, &body));
            cx.label("the file ends inside the body");
            assemble(&b.bytes[b.header.clone()], &body, &[])
        } else {
            mutate(g, &mut body, 0..n);
            assemble(&b.bytes[b.header.clone()], &body, &s.trailing)
        };
        cx.evals += 1;
        let crc = *g.pick(&CRCS);
        let (r, info) = vs_ref(cx, &d, crc, NetworkParse::Never)?;
        cx.label(if r.is_ok() { "damaged body still readable" } else { "damaged body rejected" });
        if let Err(e) = &r {
            c19_error(&d, e, &info)?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C04

const SINGLE: u64 = 256;
const BLOCKS: u64 = 256;

fn c04_total() -> u64 {
    SINGLE + BLOCKS
}

/// A network string attribute of this text inside an otherwise fixed file.
fn string_world(g: &mut G) -> World {
    world(
        g,
        &WorldOpts { kinds: Some(Kind::String), min_attrs: 1, max_attrs: 2, actors: 2, unknown: false, dup: false, flat: true, ..Default::default() },
    )
}

fn one_update(g: &mut G, w: &World, kind: Kind, payload: &BitW) -> Option<BitW> {
    let mut opts = Vec::new();
    for &o in &w.actors {
        let c = w.res.caches[o as usize].as_ref().unwrap();
        for (&s, &(_, k)) in &c.attrs {
            if k == kind && s >= 0 && i64::from(s) < i64::from(c.max()) {
                opts.push((o, s, c.max()));
            }
        }
    }
    if opts.is_empty() {
        return None;
    }
    let (o, s, max) = *g.pick(&opts);
    let id = w.ids[0];
    let mut bw = BitW::new();
    bw.f32(1.0);
    bw.f32(0.03);
    put_new(g, &mut bw, w, id, o);
    bw.bit(true);
    bw.int_max(id as u64, u64::from(w.max_channels));
    bw.bit(true);
    bw.bit(false);
    bw.bit(true);
    bw.int_max(s as u64, max as u64);
    bw.append(payload);
    bw.bit(false);
    bw.bit(false);
    Some(bw)
}

/// The kinds of attribute that hold a text.
const TEXT_KINDS: [Kind; 9] = [
    Kind::String,
    Kind::QWordString,
    Kind::UniqueId,
    Kind::Reservation,
    Kind::PartyLeader,
    Kind::PrivateMatchSettings,
    Kind::LoadoutOnline,
    Kind::LoadoutsOnline,
    Kind::RepStatTitle,
];

fn c04(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    if g.chance(1, 3) {
        let k = *g.pick(&TEXT_KINDS);
        return super::net::attr_case(g, cx, k, false);
    }
    let t = match g.weighted(&[2, 5, 1]) {
        0 => {
            let i = g.enumerate(c04_total());
            if i < SINGLE {
                cx.label("every single byte character");
                let b = i as u8;
                Text::latin(&[b'a', b, b, b'z'], b)
            } else {
                cx.label("every UTF-16 unit");
                let hi = (i - SINGLE) as u16;
                let mut u = vec![0x41u16];
                for lo in 0..256u16 {
                    u.push(hi << 8 | lo);
                    if hi & 0xf8 == 0xd8 && lo % 3 == 0 {
                        u.push(if hi < 0xdc { 0xdc00 + lo } else { 0x20 });
                    }
                }
                Text::utf16(&u, hi)
            }
        }
        1 => text(g),
        _ => text_big(g),
    };
    let mut s = Spec::new(version(g));
    s.game_type = t.clone();
    let other = text(g);
    s.props.push(simple_prop("plain", &HeaderProp::Str("x".into())));
    for (key, kind) in [("a", "StrProperty"), ("b", "NameProperty")] {
        let mut wire = Vec::new();
        put_str(&mut wire, key);
        put_str(&mut wire, kind);
        put_u32(&mut wire, 7);
        put_u32(&mut wire, 9);
        t.put(&mut wire);
        let v = if kind == "StrProperty" { HeaderProp::Str(t.value.clone()) } else { HeaderProp::Name(t.value.clone()) };
        s.props.push(PropW { wire, exp: Some((key.to_string(), v)) });
    }
    let key = name(g);
    let mut wire = Vec::new();
    put_name(g, &mut wire, &key);
    put_str(&mut wire, "IntProperty");
    put_u32(&mut wire, 4);
    put_u32(&mut wire, 0);
    put_i32(&mut wire, -7);
    s.props.push(PropW { wire, exp: Some((key, HeaderProp::Int(-7))) });
    s.levels = vec![t.clone(), other.clone()];
    s.packages = vec![other.clone(), t.clone()];
    s.names = vec![t.clone()];
    s.objects = vec![t.clone(), Text::empty(), other.clone()];
    s.debug = vec![(1, t.clone(), other.clone()), (2, other.clone(), t.clone())];
    s.ticks = vec![(t.clone(), 3)];
    let cn = name(g);
    s.classes = vec![(cn, 5)];
    let b = s.build();
    cx.attach("input", &b.bytes);
    cx.evals += 1;
    let r = parse(&b.bytes, CrcCheck::Always, NetworkParse::Always).map_err(|e| format!("texts rejected: {e:?}"))?;
    check_same_but_frames(&r, &b)?;
    let n_bytes = t.raw.len();
    cx.label(if t.size < 0 { "UTF-16" } else { "Windows-1252" });
    cx.label_if(n_bytes == 0, "size 0");
    cx.label_if(n_bytes > 2000, "long text");
    if !t.value.is_empty() {
        cx.nontrivial(&t.raw);
        cx.label_if(t.size < 0, "non-empty UTF-16");
        cx.sample = Some(format!("{:?} <- {}", t.value.chars().take(40).collect::<String>(), short_hex(&t.raw, 40)));
    }

    // the same text in the bit stream
    let w = string_world(g);
    let mut p = BitW::new();
    // a few bits in front so that the text is not byte aligned
    t.put_bits(&mut p);
    if n_bytes <= 1024 {
        if let Some(bw) = one_update(g, &w, Kind::String, &p) {
            let nb = w.spec(Some(1), &bw).build();
            cx.attach("network input", &nb.bytes);
            cx.evals += 1;
            cx.label("in the bit stream");
            let (r, _) = vs_ref(cx, &nb.bytes, CrcCheck::Always, NetworkParse::Always)?;
            let r = r.map_err(|e| format!("a network text was rejected: {:?}", classify(&e)))?;
            let f = &r.network_frames.as_ref().unwrap().frames;
            match f.first().and_then(|f| f.updated_actors.first()).map(|u| &u.attribute) {
                Some(Attribute::String(x)) => same("network text", x, &t.value)?,
                x => return Err(format!("expected a string attribute, got {x:?}")),
            }
        }
    }

    // keys and class names are UTF-8 and nothing else
    let mut h = Vec::new();
    put_i32(&mut h, 868);
    put_i32(&mut h, 12);
    put_str(&mut h, "x");
    let n = g.usize(1, 12);
    let mut raw = g.bytes(n);
    if g.bool() {
        for x in raw.iter_mut() {
            *x &= 0x7f;
        }
        let at = g.usize(0, n - 1);
        let ins = *g.pick(&[
            &[0xc3u8, 0xa9][..],
            &[0xe2, 0x82, 0xac],
            &[0xf0, 0x9f, 0x98, 0x80],
            &[0xc0, 0x80],
            &[0xed, 0xa0, 0x80],
            &[0xf4, 0x90, 0x80, 0x80],
            &[0x80],
            &[0xe2, 0x82],
            &[0xef, 0xbb, 0xbf],
        ]);
        raw.splice(at..at, ins.iter().copied());
    }
    put_i32(&mut h, raw.len() as i32 + 1);
    h.extend_from_slice(&raw);
    h.push(0);
    put_str(&mut h, "IntProperty");
    h.extend_from_slice(&[0; 12]);
    put_str(&mut h, "None");
    let d = assemble(&h, &Spec::new(ver(868, 12, 0)).body_bytes().0, &[]);
    cx.evals += 1;
    let (r, _) = vs_ref(cx, &d, CrcCheck::Always, NetworkParse::Always)?;
    match std::str::from_utf8(&raw) {
        Ok(k) if k != "None" => {
            let r = r.map_err(|e| format!("UTF-8 key {k:?} rejected: {e:?}"))?;
            same("key", &r.properties, &vec![(k.to_string(), HeaderProp::Int(0))])?;
            cx.label("UTF-8 key");
        }
        Ok(_) => {}
        Err(_) => {
            cx.label("key that is not UTF-8");
            match r {
                Err(e) if classify(&e) == RErr::Utf8 => {}
                x => return Err(format!("a key that is not UTF-8 gave {:?}", x.map(|_| "success"))),
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C06

/// Puts a checksum other than `right` into `at`: a damaged one, or one of the
/// values somebody might treat as special.
fn wrong_crc(g: &mut G, cx: &mut Cx, at: &mut [u8], right: u32, other: u32, data: &[u8]) {
    let v = match g.below(12) {
        0..=4 => right ^ 1 << g.below(32),
        5 => 0,
        6 => u32::MAX,
        7 => right.swap_bytes(),
        8 => !right,
        9 => other,
        // CRC-32 as zip and png have it
        10 => {
            let mut c = u32::MAX;
            for &b in data {
                c ^= u32::from(b);
                for _ in 0..8 {
                    c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
                }
            }
            !c
        }
        _ => g.word(),
    };
    let v = if v == right { right ^ 1 } else { v };
    cx.label_if(v == 0, "stored checksum zero");
    cx.label_if(v == other, "stored checksum of the other section");
    cx.label_if(v == right.swap_bytes(), "stored checksum byte swapped");
    at.copy_from_slice(&v.to_le_bytes());
}

/// Bodies of many megabytes: the checksum covers all of it.
fn c06_big(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let mut s = Spec::new(version(g));
    fill_body(g, &mut s);
    let n = *g.pick(&[1usize << 20, 5 << 20, 9 << 20, 17 << 20, 12_345_677]);
    let seed = g.below(1 << 40);
    let mut r = Rng::new(seed);
    s.net = (0..n / 8).flat_map(|_| r.next().to_le_bytes()).collect();
    let b = s.build();
    let d = b.bytes;
    let (start, end) = (b.body.start, b.body.end);
    cx.label("body of megabytes");
    cx.nontrivial(format!("{n} {seed}").as_bytes());
    cx.sample = Some(format!("{} body bytes", end - start));
    cx.evals += 1;
    if let Err(e) = parse(&d, CrcCheck::Always, NetworkParse::Never) {
        return Err(format!("{} bytes with right checksums: {e}", d.len()));
    }
    let mut d = d;
    for k in 0..10 {
        let i = match k {
            0 => end - 1,
            1 => g.usize(end - 64, end - 1),
            2 => start + (end - start) / 2,
            // at any power of two
            3 => (start + (1 << g.usize(10, 24))).min(end - 1),
            _ => g.usize(start, end - 1),
        };
        let bit = 1 << g.below(8);
        d[i] ^= bit;
        cx.evals += 1;
        let r = parse(&d, CrcCheck::Always, NetworkParse::Never);
        d[i] ^= bit;
        match r {
            Err(ParseError::CrcMismatch(..)) => {}
            Ok(_) => return Err(format!("bit flip at {i} of {} accepted under Always", d.len())),
            Err(e) => return Err(format!("bit flip at {i} under Always gave {e:?}")),
        }
    }
    Ok(())
}

fn c06(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    if g.enumerate(2048) == 77 {
        return c06_big(g, cx);
    }
    let f = any_file(g, 60_000);
    let mut h = f.d[f.header.clone()].to_vec();
    let mut b = f.d[f.body.clone()].to_vec();
    // content errors, checksums right
    let he = g.chance(1, 4);
    let be = g.chance(1, 3);
    if he {
        let n = h.len();
        if g.bool() {
            h.truncate(g.usize(0, n - 1));
        }
        let n = h.len();
        mutate(g, &mut h, 0..n);
    }
    if be {
        let n = b.len();
        let r = if g.bool() { 0..f.net.start - f.body.start } else { 0..n };
        mutate(g, &mut b, r);
    }
    let good = assemble(&h, &b, &[]);
    let base = parse(&good, CrcCheck::Never, NetworkParse::Never);
    // does the header end where its size says?
    let (_, hinfo) = ref_parse(&assemble(&h, &[0; 40], &[]), CrcCheck::Never, NetworkParse::Never, false);
    let aligned = hinfo.net.is_some() && hinfo.end == 16 + h.len() + 40;
    let net = *g.pick(&NETS);
    // every combination of good and bad checksums
    for hb in [false, true] {
        for bb in [false, true] {
            let mut d = good.clone();
            let (ch, cb) = (crc_ref(&h), crc_ref(&b));
            if hb {
                wrong_crc(g, cx, &mut d[4..8], ch, cb, &h);
            }
            if bb {
                let at = 8 + h.len() + 4;
                wrong_crc(g, cx, &mut d[at..at + 4], cb, ch, &b);
            }
            for mode in CRCS {
                cx.evals += 1;
                let (r, _) = vs_ref(cx, &d, mode, net)?;
                // the policy itself, stated without the reference decoder
                let stored_h = u32::from_le_bytes(d[4..8].try_into().unwrap());
                let at = 8 + h.len();
                let stored_b = u32::from_le_bytes(d[at + 4..at + 8].try_into().unwrap());
                if mode == CrcCheck::Always && hb {
                    match &r {
                        Err(ParseError::CrcMismatch(s, a)) if *s == stored_h && *a == crc_ref(&h) => cx.label("header mismatch reported"),
                        x => return Err(format!("Always with a wrong header checksum gave {:?}", x.as_ref().map(|_| "success"))),
                    }
                }
                if mode == CrcCheck::Always && !hb && bb && aligned {
                    match &r {
                        Err(ParseError::CrcMismatch(s, a)) if *s == stored_b && *a == crc_ref(&b) => cx.label("body mismatch reported"),
                        x => return Err(format!("Always with a wrong body checksum gave {:?}", x.as_ref().map(|_| "success"))),
                    }
                }
                // A header that runs past its stored size reads the body's
                // checksum as content; only without that are both checksums inert.
                if mode == CrcCheck::Never && net == NetworkParse::Never && (aligned || !bb) {
                    match (&r, &base) {
                        (Ok(a), Ok(want)) => {
                            let mut want = want.clone();
                            want.header_crc = a.header_crc;
                            want.content_crc = a.content_crc;
                            same_replay(a, &want)?;
                            cx.label("checksums ignored under Never");
                        }
                        (Err(a), Err(want)) => same_dbg("error under Never", a, want)?,
                        _ => return Err("under Never the checksum fields change the outcome".into()),
                    }
                }
                if mode == CrcCheck::OnError {
                    // what the same bytes give when checksums are not looked at
                    let base = parse(&d, CrcCheck::Never, NetworkParse::Never);
                    match (&base, &r) {
                        (Ok(_), Err(ParseError::CorruptReplay(..) | ParseError::CrcMismatch(..))) => {
                            return Err("OnError complains about the checksum of readable sections".into())
                        }
                        (Err(_), Ok(_)) => return Err("OnError accepts what Never rejects".into()),
                        (Err(raw), Err(e)) if aligned => {
                            // the body failed
                            match (bb, e) {
                                (true, ParseError::CorruptReplay(s, inner)) if s == "body" => {
                                    same_dbg("wrapped error", &**inner, raw)?;
                                    cx.label("corrupt body reported");
                                }
                                (false, e) if !matches!(e, ParseError::CorruptReplay(..)) => {
                                    same_dbg("error", e, raw)?;
                                    cx.label("body error with a right checksum");
                                }
                                // a body shorter than its declared size is not a section error
                                _ if matches!(raw, ParseError::ParseError("content data", ..)) => {}
                                (_, e) => return Err(format!("OnError with body error, checksum {}: {e:?}", if bb { "wrong" } else { "right" })),
                            }
                        }
                        _ => {}
                    }
                    if let Err(ParseError::CorruptReplay(s, inner)) = &r {
                        if s == "header" {
                            cx.label("corrupt header reported");
                            if !hb {
                                return Err("corrupt header reported although its checksum is right".into());
                            }
                            if let Err(raw) = &base {
                                same_dbg("wrapped error", &**inner, raw)?;
                            }
                        }
                    }
                }
            }
        }
    }
    // any single bit of a section
    if base.is_ok() && aligned {
        for _ in 0..3 {
            let mut d = good.clone();
            let in_header = g.bool() && !h.is_empty();
            let (lo, hi) = if in_header { (8, 8 + h.len()) } else { (16 + h.len(), d.len()) };
            if lo >= hi {
                continue;
            }
            let i = g.usize(lo, hi - 1);
            d[i] ^= 1 << g.below(8);
            cx.evals += 1;
            match parse(&d, CrcCheck::Always, NetworkParse::Never) {
                Err(ParseError::CrcMismatch(s, a)) => {
                    let (ws, wa) = if in_header { (crc_ref(&h), crc_ref(&d[8..8 + h.len()])) } else { (crc_ref(&b), crc_ref(&d[16 + h.len()..])) };
                    // a damaged header that is longer or shorter moves the body section
                    if in_header || s == ws {
                        same("mismatch values", &(s, a), &(ws, wa))?;
                    }
                    cx.label("flipped bit caught");
                }
                Ok(_) => return Err(format!("bit flip at {i} accepted under Always")),
                Err(e) => return Err(format!("bit flip at {i} under Always gave {e:?}")),
            }
        }
    }
    cx.label_if(base.is_err(), "sections with content errors");
    cx.nontrivial(&good);
    cx.sample = Some(format!("{} header bytes, {} body bytes, content errors: {}", h.len(), b.len(), base.is_err()));
    Ok(())
}

// --------------------------------------------------------------------- C07

fn c07(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let f = match g.below(4) {
        0 => {
            let c = crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts { fault: true, ..Default::default() });
            of_built(&c.b, "history with a fault")
        }
        1 => {
            // a frame count of another kind or size
            let c = crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts { frames: 3, ops: 3, ..Default::default() });
            let l = c.h.w.bytes.len() as i32;
            let v = match g.below(10) {
                0 => HeaderProp::Str("1".into()),
                1 => HeaderProp::Name("1".into()),
                2 => HeaderProp::QWord(1),
                3 => HeaderProp::Float(1.0),
                _ => HeaderProp::Int(*g.pick(&[-1, 0, 1, 2, l, l + 1, i32::MAX, i32::MIN, c.frames as i32])),
            };
            let mut s = c.w.spec(None, &c.h.w);
            s.props.push(simple_prop("NumFrames", &v));
            if g.chance(1, 3) {
                // the first one counts, whatever it is
                s.props.push(simple_prop("NumFrames", &HeaderProp::Int(c.frames as i32)));
            }
            of_built(&s.build(), "other frame count")
        }
        _ => any_file(g, 60_000),
    };
    cx.label(f.what);
    let d = if g.chance(1, 2) {
        let (d, how) = damage(g, &f);
        cx.label(how);
        d
    } else {
        f.d.clone()
    };
    cx.attach("input", &d);
    let crc = *g.pick(&CRCS);
    let never = parse(&d, crc, NetworkParse::Never);
    let ignore = parse(&d, crc, NetworkParse::IgnoreOnError);
    let (always, _) = vs_ref(cx, &d, crc, NetworkParse::Always)?;
    cx.evals += 3;
    match (&never, &ignore, &always) {
        (Ok(n), Ok(i), a) => {
            if n.network_frames.is_some() {
                return Err("Never returned network frames".into());
            }
            let mut rest = i.clone();
            rest.network_frames = None;
            same_replay(&rest, n)?;
            match a {
                Ok(a) => {
                    cx.label("network data decodes");
                    if a.network_frames.is_none() {
                        return Err("Always succeeded without network frames".into());
                    }
                    same_replay(i, a)?;
                }
                Err(ParseError::NetworkError(_)) => {
                    cx.label("network data fails");
                    if i.network_frames.is_some() {
                        return Err("IgnoreOnError returned frames although Always fails".into());
                    }
                }
                Err(e) => return Err(format!("Always fails outside the network data, the other policies succeed: {e:?}")),
            }
            cx.nontrivial(&d);
        }
        (Err(a), Err(b), Err(c)) => {
            cx.label("rejected before the network data");
            same_dbg("error under IgnoreOnError", b, a)?;
            same_dbg("error under Always", c, a)?;
        }
        _ => return Err("the network policy decides whether header and body are readable".into()),
    }
    if cx.nontrivial {
        cx.sample = Some(format!("{} bytes, {} network bytes, {:?}, frames {:?}", d.len(), f.net.len(), crc, ignore.as_ref().ok().and_then(|r| r.network_frames.as_ref()).map(|f| f.frames.len())));
    }
    // how the options are spelled does not matter, and the last one counts
    cx.evals += 4;
    same_result("default options", &ParserBuilder::new(&d).parse(), &parse(&d, CrcCheck::OnError, NetworkParse::IgnoreOnError))?;
    let mut pb = ParserBuilder::new(&d);
    let mut want_c = CrcCheck::OnError;
    let mut want_n = NetworkParse::IgnoreOnError;
    for _ in 0..g.usize(0, 5) {
        pb = match g.below(8) {
            0 => {
                want_c = CrcCheck::Always;
                pb.always_check_crc()
            }
            1 => {
                want_c = CrcCheck::Never;
                pb.never_check_crc()
            }
            2 => {
                want_c = CrcCheck::OnError;
                pb.on_error_check_crc()
            }
            3 => {
                want_c = *g.pick(&CRCS);
                pb.with_crc_check(want_c)
            }
            4 => {
                want_n = NetworkParse::Always;
                pb.must_parse_network_data()
            }
            5 => {
                want_n = NetworkParse::Never;
                pb.never_parse_network_data()
            }
            6 => {
                want_n = NetworkParse::IgnoreOnError;
                pb.ignore_network_data_on_error()
            }
            _ => {
                want_n = *g.pick(&NETS);
                pb.with_network_parse(want_n)
            }
        };
    }
    same_result("builder calls", &pb.clone().parse(), &parse(&d, want_c, want_n))?;
    same_result("cloned builder", &pb.clone().parse(), &pb.parse())?;
    // without NumFrames there is nothing to decode
    if g.chance(1, 4) {
        let c = crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts::default());
        let d = c.w.spec(None, &c.h.w).build().bytes;
        for n in [NetworkParse::Always, NetworkParse::IgnoreOnError] {
            cx.evals += 1;
            match parse(&d, CrcCheck::Always, n) {
                Ok(r) if r.network_frames.as_ref().is_some_and(|f| f.frames.is_empty()) => cx.label("no NumFrames"),
                Ok(r) => return Err(format!("without NumFrames: frames {:?}", r.network_frames.map(|f| f.frames.len()))),
                Err(e) => return Err(format!("without NumFrames: {e:?}")),
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C13

fn c13(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let mut f = any_file(g, 150_000);
    cx.label(f.what);
    let end = f.body.end;
    f.d.truncate(end);
    let mut whole = f.d.clone();
    if g.chance(1, 5) {
        // up to the last byte that is read, which can lie before the declared end
        let (_, info) = ref_parse(&whole, CrcCheck::Never, NetworkParse::Never, false);
        whole.truncate(info.end.max(f.net.end).min(end));
        f.d.truncate(whole.len());
        f.body.end = whole.len();
        redeclare(g, &mut whole, &f, false);
        cx.label("declared sizes below the real ones");
    }
    let whole = &whole[..];
    let full = parse(whole, CrcCheck::Never, NetworkParse::Never).is_ok();
    if !full {
        return Ok(());
    }
    cx.nontrivial(whole);
    let n = whole.len();
    let mut cuts: Vec<usize> = if n <= 300 {
        (0..n).collect()
    } else {
        let mut v = vec![0, 1, 4, 7, 8, 9, n - 1, n - 2, n - 4];
        for e in [f.header.start, f.header.end, f.body.start, f.net.start, f.net.end] {
            v.extend([e.saturating_sub(1), e, e + 1, e + 4]);
        }
        for _ in 0..if n > 20_000 { 12 } else { 60 } {
            v.push(g.usize(0, n - 1));
        }
        v
    };
    cuts.retain(|c| *c < n);
    cuts.sort_unstable();
    cuts.dedup();
    if n > 300 && n - f.net.end <= 4_000 && g.chance(1, 3) {
        // everywhere behind the network data
        cx.label("every cut behind the network data");
        for c in f.net.end..n {
            let (crc, net) = (*g.pick(&CRCS), *g.pick(&NETS));
            cx.evals += 1;
            if parse(&whole[..c], crc, net).is_ok() {
                cx.attach("input", &whole[..c]);
                return Err(format!("the first {c} of {n} bytes parse under {crc:?}/{net:?}"));
            }
        }
    }
    cx.sample = Some(format!("{n} bytes, {} strict prefixes", cuts.len()));
    for c in cuts {
        let d = &whole[..c];
        for crc in CRCS {
            for net in NETS {
                cx.evals += 1;
                if let Ok(_r) = parse(d, crc, net) {
                    cx.attach("input", d);
                    return Err(format!("the first {c} of {n} bytes parse under {crc:?}/{net:?}"));
                }
            }
        }
        if n < 20_000 || c % 7 == 0 {
            let crc = *g.pick(&CRCS);
            vs_ref(cx, d, crc, NetworkParse::IgnoreOnError)?;
        }
    }
    // only the network data cut short, everything else consistent
    let net = f.d[f.net.clone()].to_vec();
    if net.len() > 1 {
        let all = must(&assemble(&f.d[f.header.clone()], &f.d[f.body.clone()], &[])).ok();
        for _ in 0..if n > 20_000 { 2 } else { 8 } {
            let c = if g.bool() { g.usize(0, net.len() - 1) } else { net.len() - 1 - g.usize(0, net.len().min(12) - 1) };
            let d = with_net(&f, &net[..c]);
            cx.evals += 2;
            let (r, _) = vs_ref(cx, &d, CrcCheck::Always, NetworkParse::Always)?;
            let ig = parse(&d, CrcCheck::Always, NetworkParse::IgnoreOnError).map_err(|e| format!("IgnoreOnError fails on cut network data: {e:?}"))?;
            match (&r, &ig.network_frames) {
                (Ok(r), Some(fr)) => {
                    cx.label("cut network data, still complete");
                    same_frames(&r.network_frames, &ig.network_frames)?;
                    if let Some(a) = all.as_ref().and_then(|a| a.network_frames.as_ref()) {
                        if fr.frames.len() > a.frames.len() {
                            cx.attach("input", &d);
                            return Err("cutting the network data adds frames".into());
                        }
                        same("frames before the cut", &fr.frames[..], &a.frames[..fr.frames.len()])?;
                    }
                }
                (Err(_), None) => cx.label("cut network data rejected"),
                _ => return Err("Always and IgnoreOnError disagree on cut network data".into()),
            }
        }
    }
    Ok(())
}

fn c13_none() -> u64 {
    0
}

// --------------------------------------------------------------------- C16

/// A file that shares almost everything with `c`, but not what it means.
fn sibling(g: &mut G, c: &crate::props::net::NetCase, what: u64) -> Vec<u8> {
    let mut s = c.w.spec(Some(c.nf), &c.h.w);
    let text = |g: &mut G, old: &Option<HeaderProp>, items: &[&str]| {
        let old = match old {
            Some(HeaderProp::Str(x)) | Some(HeaderProp::Name(x)) => x.clone(),
            _ => String::new(),
        };
        match g.below(4) {
            // the same characters in another order
            0 => old.chars().rev().collect::<String>(),
            1 => {
                // another start, same end
                let mut b = old.into_bytes();
                if let Some(x) = b.first_mut() {
                    *x = b'0' + g.below(10) as u8;
                }
                String::from_utf8(b).unwrap_or_default()
            }
            _ => (*g.pick(items)).to_string(),
        }
    };
    let set = |s: &mut Spec, k: &str, v: HeaderProp| {
        let p = simple_prop(k, &v);
        match s.props.iter().position(|p| p.exp.as_ref().is_some_and(|e| e.0 == k)) {
            Some(i) => s.props[i] = p,
            None => s.props.push(p),
        }
    };
    match what {
        0 => {
            let v = text(g, &c.w.build, &["221120.42953.406184", "221120.42953.406183", "210101.42953.406184", "240101.12345.678901"]);
            set(&mut s, "BuildVersion", HeaderProp::Str(v));
        }
        1 => {
            let v = text(g, &c.w.match_type, &["Lan", "Online", "Private", "LAN"]);
            set(&mut s, "MatchType", HeaderProp::Name(v));
        }
        2 => set(&mut s, "MaxChannels", HeaderProp::Int(*g.pick(&[1023, 1024, 63, 2047, 511]))),
        3 => s.ver = version(g).norm(),
        4 | 5 => {
            // the names change places, those of one length with each other
            let n = s.objects.len();
            for _ in 0..g.usize(1, 3) {
                let i = g.usize(0, n - 1);
                let same: Vec<usize> = (0..n).filter(|&j| what == 5 || s.objects[j].raw.len() == s.objects[i].raw.len()).collect();
                let j = *g.pick(&same);
                s.objects.swap(i, j);
            }
        }
        6 => {
            // stream ids change places
            let mut ids: Vec<i32> = s.cache.iter().flat_map(|c| c.properties.iter().map(|p| p.stream_id)).collect();
            shuffle(g, &mut ids);
            let mut it = ids.into_iter();
            for c in &mut s.cache {
                for p in &mut c.properties {
                    p.stream_id = it.next().unwrap();
                }
            }
        }
        7 => {
            // attributes move from one class to another
            let n = s.cache.len();
            if n > 1 {
                let (i, j) = (g.usize(0, n - 1), g.usize(0, n - 1));
                let t = s.cache[i].object_ind;
                s.cache[i].object_ind = s.cache[j].object_ind;
                s.cache[j].object_ind = t;
            }
        }
        8 => s.props.retain(|p| p.exp.as_ref().is_none_or(|e| e.0 == "NumFrames")),
        _ => {
            // one product class turns into another
            for t in &mut s.objects {
                if PRODUCTS.contains(&t.value.as_str()) && g.bool() {
                    *t = Text::plain(*g.pick(PRODUCTS));
                }
            }
        }
    }
    s.build().bytes
}

/// Files that resemble each other, parsed one after the other in one process:
/// each as if it were the only one.
fn c16_series(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let wo = WorldOpts { max_attrs: 4, flat: g.bool(), kinds: if g.bool() { Some(*g.pick(&[Kind::LoadoutOnline, Kind::QWordString, Kind::LoadoutsOnline, Kind::Reservation, Kind::UniqueId])) } else { None }, ..Default::default() };
    let c = crate::props::net::net_case(g, &wo, &HistOpts { frames: 3, ops: 5, ..Default::default() });
    let mut files = vec![c.b.bytes.clone()];
    for _ in 0..g.usize(1, 3) {
        let what = g.below(10);
        files.push(sibling(g, &c, what));
    }
    if g.chance(1, 3) {
        return c16_one_buffer(g, cx, files);
    }
    cx.label("series of similar files");
    cx.nontrivial(&files.concat());
    let mut want: Vec<Option<Result<Replay, ParseError>>> = files.iter().map(|_| None).collect();
    let mut differ = false;
    let mut order = Vec::new();
    for _ in 0..g.usize(3, 8) {
        let i = g.usize(0, files.len() - 1);
        order.push(i);
        cx.evals += 1;
        // the reference decoder keeps nothing between two files
        let (r, _) = vs_ref(cx, &files[i], CrcCheck::Always, NetworkParse::Always).map_err(|m| format!("file {i} of a series, after {order:?}: {m}"))?;
        if let Some(w) = &want[i] {
            same_result("the same file again", &r, w)?;
        }
        if let (Ok(a), Some(Some(Ok(b)))) = (&r, want.first()) {
            differ |= a.network_frames != b.network_frames;
        }
        want[i] = Some(r);
    }
    cx.label_if(differ, "with different frames");
    cx.sample = Some(format!("{} similar files of {} bytes in order {order:?}", files.len(), files[0].len()));
    Ok(())
}

/// Files, whole, cut off or changed, one after the other in the same place: what is
/// remembered by address or length has to be noticed as stale.
fn c16_one_buffer(g: &mut G, cx: &mut Cx, files: Vec<Vec<u8>>) -> Result<(), String> {
    cx.label("one buffer for several files");
    cx.nontrivial(&files.concat());
    let mut place = vec![0u8; files.iter().map(Vec::len).max().unwrap_or(0)];
    let crc = *g.pick(&CRCS);
    let net = *g.pick(&NETS);
    // behind the header, in the body, or not at all
    let first = &files[0];
    let head = 8 + i32::from_le_bytes(first[..4].try_into().unwrap()).max(0) as usize;
    let cut = match g.below(4) {
        0 => head,
        1 => head + 8,
        2 => g.usize(0, first.len()),
        _ => usize::MAX,
    };
    let mut order = Vec::new();
    for _ in 0..g.usize(2, 8) {
        let i = g.usize(0, files.len() - 1);
        let n = files[i].len().min(cut);
        place[..n].copy_from_slice(&files[i][..n]);
        let mut at = None;
        if n > 0 && g.chance(2, 3) {
            let k = match g.below(3) {
                0 if n > 8 => g.usize(8, n.min(head) - 1),
                1 => g.usize(0, n.min(8 + head) - 1),
                _ => g.usize(0, n - 1),
            };
            place[k] ^= 1 << g.below(8);
            at = Some(k);
        }
        order.push((i, at));
        cx.evals += 1;
        vs_ref(cx, &place[..n], crc, net).map_err(|m| format!("{n} bytes, in one buffer (file, byte changed) {order:?}, {crc:?}/{net:?}: {m}"))?;
    }
    cx.sample = Some(format!("one buffer, files of {} bytes cut at {cut}, (file, byte changed) {order:?}", files[0].len()));
    Ok(())
}

fn c16(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    if g.below(2) == 0 {
        return c16_series(g, cx);
    }
    let f = match g.below(3) {
        0 => of_built(&crate::props::net::net_case(g, &WorldOpts::default(), &HistOpts { fault: true, ..Default::default() }).b, "history with a fault"),
        _ => any_file(g, 100_000),
    };
    cx.label(f.what);
    let d = if g.chance(1, 3) { damage(g, &f).0 } else { f.d[..f.body.end].to_vec() };
    cx.attach("input", &d);
    cx.nontrivial(&d);
    let crc = *g.pick(&CRCS);
    let net = *g.pick(&NETS);
    let before = d.clone();
    let r0 = parse(&d, crc, net);
    cx.label(if r0.is_ok() { "accepted" } else { "rejected" });
    cx.sample = Some(format!("{} bytes, {crc:?}/{net:?}, {}", d.len(), if r0.is_ok() { "accepted" } else { "rejected" }));
    let text = |r: &Result<Replay, ParseError>| match r {
        Ok(r) => format!("{r:?}"),
        Err(e) => {
            let mut s = format!("{e}");
            let mut cur = std::error::Error::source(e);
            while let Some(x) = cur {
                s.push_str(&format!("\n<- {x}"));
                cur = x.source();
            }
            s
        }
    };
    let t0 = text(&r0);
    let check = |what: &str, r: &Result<Replay, ParseError>| -> Result<(), String> {
        same_result(what, r, &r0)?;
        let t = text(r);
        if t != t0 {
            return Err(format!("{what}: the result reads differently:\n {}\n {}", t.chars().take(300).collect::<String>(), t0.chars().take(300).collect::<String>()));
        }
        if let (Ok(a), Ok(b)) = (r, &r0) {
            let (x, y) = (serde_json::to_string(a), serde_json::to_string(b));
            if x.ok() != y.ok() {
                return Err(format!("{what}: the JSON differs"));
            }
        }
        Ok(())
    };
    cx.evals += 5;
    check("second parse", &parse(&d, crc, net))?;
    // elsewhere in memory
    let off = match g.below(4) {
        0 => *g.pick(&[0usize, 16, 32, 64, 512, 2048]),
        1 => 4096 - d.len() % 4096,
        _ => g.usize(1, 9),
    };
    let mut moved = Vec::new();
    check("parse at another address", &parse(placed(&mut moved, &d, off), crc, net))?;
    // after parsing something else
    let other = any_file(g, 20_000);
    let _ = parse(&other.d, crc, net);
    check("parse after another file", &parse(&d, crc, net))?;
    // concurrently
    let rs: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = (0..3)
            .map(|i| {
                let d = &d;
                let o = &other.d;
                s.spawn(move || {
                    if i == 1 {
                        let _ = parse(o, crc, net);
                    }
                    parse(d, crc, net)
                })
            })
            .collect();
        h.into_iter().map(|x| x.join()).collect()
    });
    for r in rs {
        match r {
            Ok(r) => check("concurrent parse", &r)?,
            Err(_) => return Err("a concurrent parse panicked".into()),
        }
    }
    // data behind the body is not part of the replay
    if r0.is_ok() || f.d[..f.body.end] == d[..] {
        let mut longer = d.clone();
        let more = behind(g, &d, f.header.end);
        longer.extend(more);
        cx.evals += 1;
        cx.label("data behind the body");
        check("parse with data behind the body", &parse(&longer, crc, net))?;
    }
    if d != before {
        return Err("parsing changed the input".into());
    }
    Ok(())
}

// --------------------------------------------------------------------- C17

pub const F1: &str = "F1";
const MB: i64 = 1 << 20;

fn c17_total() -> u64 {
    24
}

fn big_list(name: u64, count: i32, real: usize, depth: u64) -> (Vec<u8>, Vec<u8>) {
    // header, body whose list `name` declares `count` elements and has `real`
    let mut h = Vec::new();
    put_i32(&mut h, 868);
    put_i32(&mut h, 12);
    put_str(&mut h, "x");
    if name == 12 {
        put_str(&mut h, "before");
        put_str(&mut h, "IntProperty");
        h.extend_from_slice(&[0; 12]);
    }
    // levels of lists and structs around it
    let deep = if name == 11 { 1 + depth % 60 } else { 0 };
    for i in 0..deep {
        put_str(&mut h, "k");
        if depth >> (i % 50) & 1 == 0 {
            put_str(&mut h, "StructProperty");
            put_u32(&mut h, 0);
            put_u32(&mut h, 0);
            put_str(&mut h, "S");
        } else {
            put_str(&mut h, "ArrayProperty");
            put_u32(&mut h, 0);
            put_u32(&mut h, 0);
            put_i32(&mut h, 1);
        }
    }
    if matches!(name, 9 | 11 | 12) {
        put_str(&mut h, "k");
        put_str(&mut h, "ArrayProperty");
        put_u32(&mut h, 0);
        put_u32(&mut h, 0);
        put_i32(&mut h, count);
        for _ in 0..real {
            put_str(&mut h, "None");
        }
    }
    for _ in 0..deep {
        put_str(&mut h, "None");
    }
    put_str(&mut h, "None");
    let mut b = Vec::new();
    for l in 0..9u64 {
        if l == 2 {
            put_i32(&mut b, 0); // network data
        }
        if name == 13 && l == 8 {
            // behind other entries
            let k = 1 + (depth % 5) as i32;
            put_i32(&mut b, k + 1);
            for _ in 0..k {
                for x in [0, 0, 0, 1, 1, 2] {
                    put_i32(&mut b, x);
                }
            }
            for x in [0, 0, 0, count] {
                put_i32(&mut b, x);
            }
            for _ in 0..real {
                put_i32(&mut b, 1);
                put_i32(&mut b, 2);
            }
        } else if l == name {
            put_i32(&mut b, count);
            for _ in 0..real {
                element(l, &mut b);
            }
        } else if name == 10 && l == 8 {
            put_i32(&mut b, 1);
            put_i32(&mut b, 0);
            put_i32(&mut b, 0);
            put_i32(&mut b, 0);
            put_i32(&mut b, count);
            for _ in 0..real {
                put_i32(&mut b, 1);
                put_i32(&mut b, 2);
            }
        } else {
            put_i32(&mut b, 0);
        }
    }
    (h, b)
}

/// levels, keyframes, debug info, tick marks, packages, objects, names, class
/// indices, net cache; 9 is a header array, 10 the properties of a cache entry
const LIST_NAMES: [&str; 14] = [
    "levels", "keyframes", "debug info", "tick marks", "packages", "objects", "names", "class indices", "net cache",
    "header array", "cache properties", "nested header array", "header array behind a property", "properties of a later cache entry",
];

fn element(l: u64, b: &mut Vec<u8>) {
    match l {
        0 | 4 | 5 | 6 => put_i32(b, 0),
        1 => b.extend_from_slice(&[1; 12]),
        2 => {
            put_i32(b, 5);
            put_i32(b, 0);
            put_i32(b, 0);
        }
        3 => {
            put_i32(b, 0);
            put_i32(b, 6);
        }
        7 => {
            put_i32(b, 0);
            put_i32(b, 7);
        }
        _ => {
            put_i32(b, 1);
            put_i32(b, 2);
            put_i32(b, 3);
            put_i32(b, 0);
        }
    }
}

/// `objects` objects that all inherit `attrs` attributes.
fn inherited(objects: usize, attrs: usize) -> Spec {
    let mut s = Spec::new(ver(868, 32, 10));
    let mut names: Vec<String> = (0..objects).map(|i| format!("s{i}.TheWorld:PersistentLevel.CrowdActor_TA_{i}")).collect();
    let parent = names.len() as i32;
    names.push("TAGame.CrowdActor_TA".into());
    let at = names.len() as i32;
    names.push(ATTRS[0].0.into());
    s.objects = names.iter().map(|n| Text::plain(n)).collect();
    s.cache = vec![ClassNetCache {
        object_ind: parent,
        parent_id: 0,
        cache_id: 0,
        properties: (0..attrs as i32).map(|i| CacheProp { object_ind: at, stream_id: i }).collect(),
    }];
    s.props.push(simple_prop("NumFrames", &HeaderProp::Int(0)));
    s
}

fn c17(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let mut base = 3 * MB;
    let mut k_body = 60i64;
    let d: Vec<u8>;
    let mut what = "";
    match g.weighted(&[5, 5, 3, 3, 2, 2, 2, 2, 1]) {
        0 => {
            // huge counts, few elements
            let l = g.below(14);
            let c = *g.pick(&[25_000i32, 25_001, 24_999, i32::MAX, i32::MIN, -1, 1_000_000, 100_000_000, 30_000]);
            let real = *g.pick(&[0usize, 1, 100, 25_000]);
            let (h, b) = big_list(l, c, real, g.bits(60));
            d = assemble(&h, &b, &[]);
            cx.label("declared list length");
            what = LIST_NAMES[l as usize];
        }
        1 if g.chance(1, 8) => {
            let mut s = Spec::new(version(g));
            crowd(g, &mut s, 25_000, 500_000);
            d = s.build().bytes;
            cx.label("several long lists");
        }
        1 if g.chance(1, 4) => {
            // a network that decodes, next to two or more long lists of next to nothing
            let mut s = Spec::new(version(g));
            s.objects = vec![Text::plain("Core.Object"), Text::plain("TAGame.Car_TA"), Text::plain(ATTRS[0].0)];
            s.cache = vec![ClassNetCache { object_ind: 1, parent_id: 0, cache_id: 0, properties: vec![CacheProp { object_ind: 2, stream_id: 3 }] }];
            let (a, b) = (g.below(11), g.below(11));
            let rest = g.chance(1, 4);
            let n = *g.pick(&[24_000usize, 25_000, 12_000, 5_000]);
            for l in 0..11u64 {
                if l != a && l != b && !(rest && g.bool()) {
                    continue;
                }
                let n = n - g.usize(0, 1) * n / 4 - 5;
                let texts = || (0..n).map(|_| Text::empty());
                match l {
                    0 => s.levels = texts().collect(),
                    1 => s.keyframes = vec![(1, 2, 3); n],
                    2 => s.debug = (0..n).map(|i| (i as i32, Text::empty(), Text::empty())).collect(),
                    3 => s.ticks = texts().map(|t| (t, 0)).collect(),
                    4 => s.packages = texts().collect(),
                    5 => s.objects.extend(texts()),
                    6 => s.names = texts().collect(),
                    7 => s.classes = (0..n).map(|i| (String::new(), i as i32 % 3)).collect(),
                    8 => s.cache.extend((0..n).map(|_| ClassNetCache { object_ind: 0, parent_id: 0, cache_id: 0, properties: vec![] })),
                    9 => s.props.push(simple_prop("k", &HeaderProp::Array(vec![vec![]; n]))),
                    _ => s.cache[0].properties.extend((0..n as i32).map(|i| CacheProp { object_ind: 2, stream_id: i % 64 })),
                }
            }
            let frames = g.usize(0, 2_000);
            s.props.push(simple_prop("NumFrames", &HeaderProp::Int(frames as i32)));
            let mut w = BitW::new();
            for _ in 0..frames {
                w.f32(1.0);
                w.f32(0.25);
                w.bit(false);
            }
            s.net = w.bytes;
            d = s.build().bytes;
            cx.label("two long lists");
        }
        1 => {
            let max = if g.chance(1, 10) { 700_000 } else { 150_000 };
            let f = any_file(g, max);
            cx.label(f.what);
            d = if g.chance(1, 3) { f.d.clone() } else { damage(g, &f).0 };
        }
        2 => {
            // nested arrays, each declaring the maximum
            let depth = *g.pick(&[1usize, 4, 16, 40, 63, 64, 65, 200, 2000]);
            let mut h = Vec::new();
            put_i32(&mut h, 868);
            put_i32(&mut h, 12);
            put_str(&mut h, "x");
            for _ in 0..depth {
                put_str(&mut h, "k");
                put_str(&mut h, "ArrayProperty");
                put_u32(&mut h, 0);
                put_u32(&mut h, 0);
                put_i32(&mut h, 25_000);
            }
            base += depth.min(140) as i64 * 700_000;
            d = assemble(&h, &[], &[]);
            cx.label("nested arrays");
            what = "nested arrays";
        }
        3 => {
            // many frames declared
            let w = world(g, &WorldOpts::default());
            let n = *g.pick(&[0usize, 1, 100, 3000, 100_000]);
            let mut bw = BitW::new();
            bw.f32(1.0);
            bw.f32(0.1);
            let seed = g.bytes(n);
            bw.raw(&seed);
            let len = bw.bytes.len() as i32;
            let nf = *g.pick(&[len, len - 1, len + 1, i32::MAX, -1, 1 << 20, 1 << 28, 1]);
            d = w.spec(Some(nf), &bw).build().bytes;
            cx.label("declared frame count");
        }
        4 => {
            // network texts and product lists with large counts
            let kind = *g.pick(&[Kind::String, Kind::LoadoutOnline, Kind::LoadoutsOnline, Kind::PrivateMatchSettings, Kind::UniqueId]);
            let w = world(g, &WorldOpts { kinds: Some(kind), flat: true, max_attrs: 2, ..Default::default() });
            let mut p = BitW::new();
            match kind {
                Kind::String | Kind::PrivateMatchSettings => p.i32(*g.pick(&[1024, 1025, -512, -513, i32::MAX, i32::MIN, 1 << 24])),
                Kind::UniqueId => {
                    p.u8(11);
                    p.i32(*g.pick(&[1024, 1025, -512, -513, i32::MAX, i32::MIN, 1 << 24]));
                }
                _ => {
                    p.u8(255);
                    p.u8(*g.pick(&[255u8, 0, 1]));
                }
            }
            let n = g.usize(0, 2000);
            p.raw(&g.bytes(n));
            let bw = one_update(g, &w, kind, &p).unwrap_or_default();
            d = w.spec(Some(1), &bw).build().bytes;
            cx.label("network sizes");
        }
        5 if g.bool() => {
            // many short frames
            let w = world(g, &WorldOpts { flat: true, ..Default::default() });
            let h = history(g, &w, &HistOpts { frames: 4, ops: 12, ..Default::default() });
            let n = g.usize(0, 9_000);
            let mut bw = h.w;
            // what every one of them holds
            let mut per = BitW::new();
            for _ in 0..if w.actors.is_empty() { 0 } else { g.below(3) } {
                let id = *g.pick(&w.ids);
                match g.below(3) {
                    0 => put_new(g, &mut per, &w, id, w.actors[0]),
                    1 => {
                        per.bit(true);
                        per.int_max(id as u64, u64::from(w.max_channels));
                        per.bit(false);
                    }
                    _ => {
                        put_new(g, &mut per, &w, id, w.actors[0]);
                        per.bit(true);
                        per.int_max(id as u64, u64::from(w.max_channels));
                        per.bit(true);
                        per.bit(false);
                        per.bit(false);
                    }
                }
            }
            for _ in 0..n {
                bw.f32(2.0);
                bw.f32(0.5);
                bw.append(&per);
                bw.bit(false);
            }
            d = w.spec(Some(h.frames as i32 + n as i32), &bw).build().bytes;
            cx.label("many short frames");
        }
        5 => {
            // stream ids and actor ids far apart
            let w = world(g, &WorldOpts { flat: true, ..Default::default() });
            let h = history(g, &w, &HistOpts { frames: 20, ops: 20, ..Default::default() });
            d = w.spec(Some(h.frames as i32), &h.w).build().bytes;
            cx.label("sparse ids");
        }
        6 => {
            // text sizes
            let mut h = Vec::new();
            put_i32(&mut h, 868);
            put_i32(&mut h, 12);
            put_i32(&mut h, *g.pick(&[10_000, -10_000, 10_001, -10_001, i32::MAX, i32::MIN, 1 << 28]));
            let n = *g.pick(&[0usize, 9_999, 10_000, 20_000, 20_001]);
            h.extend(g.bytes(n));
            put_str(&mut h, "None");
            d = assemble(&h, &Spec::new(ver(868, 12, 0)).body_bytes().0, &[]);
            cx.label("text sizes");
            k_body = 60;
        }
        7 => {
            // a few long names that everything refers to
            let n = *g.pick(&[9_000usize, 3_000, 500]);
            let mut s = Spec::new(ver(868, 32, 10));
            let long = "x".repeat(n);
            let class = *g.pick(&["TheWorld:PersistentLevel.CrowdManager_TA_", "TAGame.PRI_TA"]);
            let class = if class.ends_with('_') { format!("{class}{long}") } else { class.to_string() };
            let attr = if g.bool() { format!("TAGame.PRI_TA:{long}") } else { "TAGame.PRI_TA:bReady".into() };
            s.objects = [class.as_str(), "TAGame.PRI_TA:bReady", &attr].iter().map(|x| Text::plain(x)).collect();
            s.names = vec![Text::plain(&long); g.usize(0, 2)];
            let entries = g.usize(1, 130);
            let each = g.usize(0, 200);
            s.cache = (0..entries)
                .map(|i| ClassNetCache {
                    object_ind: if i % 3 == 2 { *g.pick(&[1, 2, 7, -1]) } else { 0 },
                    parent_id: 0,
                    cache_id: 0,
                    properties: (0..each as i32).map(|k| CacheProp { object_ind: 2, stream_id: 1 + k % *g.pick(&[1, 60]) }).collect(),
                })
                .collect();
            s.cache.push(ClassNetCache { object_ind: 0, parent_id: 0, cache_id: 0, properties: vec![CacheProp { object_ind: 1, stream_id: 60 }] });
            let mut w = BitW::new();
            let frames = g.usize(0, 300);
            let (news, ups) = (g.usize(0, 8), g.usize(0, 8));
            for _ in 0..frames {
                w.f32(1.0);
                w.f32(0.25);
                for k in 0..news.max(1) {
                    w.bit(true);
                    w.int_max(k as u64, 1023);
                    w.bit(true);
                    w.bit(true);
                    w.i32(0);
                    w.bit(false);
                    w.i32(0);
                }
                for _ in 0..ups {
                    w.bit(true);
                    w.int_max(0, 1023);
                    w.bit(true);
                    w.bit(false);
                    w.bit(true);
                    w.int_max(60, 61);
                    w.bit(true);
                    w.bit(false);
                }
                w.bit(false);
            }
            if g.bool() {
                // and an error that tells about them
                w.f32(1.0);
                w.f32(0.25);
                w.bit(true);
                w.int_max(0, 1023);
                w.bit(true);
                w.bit(false);
                w.bit(true);
                w.int_max(*g.pick(&[1u64, 59]), 61);
            }
            w.raw(&[0; 80]);
            s.net = w.bytes;
            s.props.push(simple_prop("NumFrames", &HeaderProp::Int(frames as i32 + 1)));
            d = s.build().bytes;
            cx.label("long names, many references");
        }
        _ => {
            let i = g.enumerate(c17_total());
            let (o, a) = match i {
                0 => (1200, 1200),
                1 => (3000, 3),
                2 => (10, 20_000),
                3 => (20_000, 1),
                _ => (g.usize(1, 200), g.usize(1, 200)),
            };
            d = inherited(o, a).build().bytes;
            cx.label("inherited attributes");
        }
    }
    cx.attach("input", &d);
    cx.nontrivial(&d);
    let (info_pairs, net_len, decoded) = if what == "nested arrays" {
        // the reference recurses without a limit
        (0, 0, 0)
    } else {
        let (_, info) = ref_parse(&d, CrcCheck::Never, if d.len() < 3_000_000 { NetworkParse::IgnoreOnError } else { NetworkParse::Never }, false);
        let [f, n, u, x] = info.decoded.map(|x| x as i64);
        let text = info.net_stop as i64 / 8;
        (info.pairs as i64, info.net.map(|(a, b)| b - a).unwrap_or(0) as i64, 80 * f + 60 * n + 160 * u + 8 * x + 8 * text)
    };
    let mut worst = 0;
    for net in [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never] {
        let crc = *g.pick(&CRCS);
        let (r, u) = measure(|| parse(&d, crc, net));
        let (_, eu) = match &r {
            Err(e) => measure(|| drop(e.to_string())),
            Ok(_) => measure(|| ()),
        };
        cx.evals += 1;
        let peak = u.peak.max(eu.peak);
        worst = worst.max(peak);
        // frames are reserved up front; lists of decoded elements double
        let bound = base + k_body * d.len() as i64 + (500 * net_len).min(120 * net_len + 4 * decoded);
        if std::env::var_os("VP_TUNE").is_some() {
            eprintln!("TUNE {:>9} len {:>8} net {:>8} pairs {:>8} peak {:>10} disp {:>9} ratio {:.3} {:?} {what}", u.largest, d.len(), net_len, info_pairs, u.peak, eu.peak, peak as f64 / bound as f64, cx.labels);
        }
        if peak > bound {
            if known::listed(F1) && peak <= bound + 400 * info_pairs {
                cx.known.push((F1, "memory grows with objects x inherited attributes instead of with the input".into()));
                continue;
            }
            return Err(format!(
                "{} bytes of input ({net_len} of network data{}{what}) made parsing hold {peak} bytes; bound {bound}",
                d.len(),
                if what.is_empty() { "" } else { "; list: " }
            ));
        }
    }
    cx.sample = Some(format!("{} bytes input, {net_len} network bytes, {info_pairs} object/attribute pairs, peak {worst} bytes {what}", d.len()));
    Ok(())
}

// --------------------------------------------------------------------- C18

const COUNTS: [i32; 9] = [0, 1, 24_999, 25_000, 25_001, 25_002, -1, i32::MIN, i32::MAX];
const TEXTS: [i32; 13] = [0, 1, -1, 9_999, 10_000, 10_001, -9_999, -10_000, -10_001, i32::MIN, i32::MAX, 65_536, i32::MIN + 1];
const NTEXT_PLACES: [(Kind, u8); 9] = [
    (Kind::String, 0),
    (Kind::UniqueId, 0),
    (Kind::PrivateMatchSettings, 0),
    (Kind::RepStatTitle, 0),
    (Kind::PrivateMatchSettings, 1),
    (Kind::PrivateMatchSettings, 2),
    (Kind::Reservation, 0),
    (Kind::PartyLeader, 0),
    (Kind::LoadoutOnline, 0),
];
const NTEXTS: [i32; 12] = [0, 1, -1, 1023, 1024, 1025, -511, -512, -513, i32::MIN, i32::MAX, -32_768];

/// A list whose elements are more than zeros.
fn full_list(g: &mut G, l: u64, n: usize) -> Built {
    let mut s = Spec::new(version(g));
    let len = *g.pick(&[3u64, 12, 40, 90, 200]);
    let mut r = Rng::new(g.below(1 << 40));
    let mut text = || {
        let k = 1 + r.next() % len;
        Text::latin(&(0..k).map(|_| b'a' + (r.next() % 26) as u8).collect::<Vec<_>>(), 0)
    };
    match l {
        0 => s.levels = (0..n).map(|_| text()).collect(),
        1 => s.keyframes = (0..n).map(|i| (i as u32, 3 * i as i32, -1 - i as i32)).collect(),
        2 => s.debug = (0..n).map(|i| (i as i32, text(), text())).collect(),
        3 => s.ticks = (0..n).map(|i| (text(), i as i32)).collect(),
        4 => s.packages = (0..n).map(|_| text()).collect(),
        5 => s.objects = (0..n).map(|_| text()).collect(),
        6 => s.names = (0..n).map(|_| text()).collect(),
        7 => s.classes = (0..n).map(|i| (text().value, i as i32)).collect(),
        8 => {
            s.cache = (0..n)
                .map(|i| ClassNetCache {
                    object_ind: i as i32,
                    parent_id: 3,
                    cache_id: -1,
                    properties: (0..text().value.len() as i32 % 9).map(|k| CacheProp { object_ind: k, stream_id: i as i32 }).collect(),
                })
                .collect()
        }
        _ => {
            let each = |i: usize, t: &str| vec![("Id".to_string(), HeaderProp::Int(i as i32)), ("Text".to_string(), HeaderProp::Str(t.into()))];
            let v = HeaderProp::Array((0..n).map(|i| each(i, &text().value)).collect());
            s.props.push(simple_prop("k", &v));
        }
    }
    s.build()
}

fn c18_total() -> u64 {
    (14 * COUNTS.len() + 9 * TEXTS.len() + NTEXTS.len() * NTEXT_PLACES.len() + 40) as u64
}

fn c18(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let mut i = g.enumerate(c18_total()) as usize;
    let lists = 14 * COUNTS.len();
    let txt = 9 * TEXTS.len();
    let ntxt = NTEXTS.len() * NTEXT_PLACES.len();
    let crc = *g.pick(&CRCS);
    if i < lists {
        let l = (i / COUNTS.len()) as u64;
        let c = COUNTS[i % COUNTS.len()];
        let over = !(0..=25_000).contains(&c);
        // with all the data a larger list would need
        let real = if (0..=25_002).contains(&c) { c as usize } else { 40 };
        let depth = g.bits(60);
        let (h, b) = big_list(l, c, real, depth);
        let d = assemble(&h, &b, &[]);
        cx.label("list length");
        cx.nontrivial(&(i as u64).to_le_bytes());
        cx.sample = Some(format!("{} with {c} elements", LIST_NAMES[l as usize]));
        cx.attach("input", &d);
        cx.evals += 2;
        let r = parse(&d, crc, NetworkParse::Never);
        match (&r, over) {
            (Ok(r), false) => {
                let got = match l {
                    0 => r.levels.len(),
                    1 => r.keyframes.len(),
                    2 => r.debug_info.len(),
                    3 => r.tick_marks.len(),
                    4 => r.packages.len(),
                    5 => r.objects.len(),
                    6 => r.names.len(),
                    7 => r.class_indices.len(),
                    8 => r.net_cache.len(),
                    9 | 11 | 12 => {
                        let mut v = &r.properties.last().unwrap().1;
                        for _ in 0..if l == 11 { 1 + depth % 60 } else { 0 } {
                            v = match v {
                                HeaderProp::Struct { fields, .. } => &fields[0].1,
                                HeaderProp::Array(a) => &a[0][0].1,
                                x => return Err(format!("{x:?} in place of a list or struct")),
                            };
                        }
                        v.as_array().map_or(0, |a| a.len())
                    }
                    _ => r.net_cache.last().unwrap().properties.len(),
                };
                if got != c as usize {
                    return Err(format!("{}: {got} elements instead of {c}", LIST_NAMES[l as usize]));
                }
            }
            (Err(e), true) => {
                let root = root_of(e);
                if !matches!(root, ParseError::ListTooLarge(_)) {
                    return Err(format!("{} with {c} elements: {e:?}", LIST_NAMES[l as usize]));
                }
            }
            (Ok(_), true) => return Err(format!("{} with {c} elements accepted", LIST_NAMES[l as usize])),
            (Err(e), false) => return Err(format!("{} with {c} elements rejected: {e:?}", LIST_NAMES[l as usize])),
        }
        vs_ref(cx, &d, crc, NetworkParse::Always)?;
        // the same list with something in its elements
        if c > 0 && !over && l < 10 && g.chance(1, 4) {
            let b = full_list(g, l, c as usize);
            cx.evals += 1;
            let (r, _) = vs_ref(cx, &b.bytes, crc, NetworkParse::Never)?;
            if let Err(e) = r {
                cx.attach("input", &b.bytes);
                return Err(format!("{} with {c} elements of some size rejected: {e:?}", LIST_NAMES[l as usize]));
            }
        }
        // and one element short
        if c > 0 && !over {
            let (h, b) = big_list(l, c, real - 1, depth);
            let d = assemble(&h, &b, &[]);
            cx.evals += 1;
            vs_ref(cx, &d, crc, NetworkParse::Never)?;
        }
        return Ok(());
    }
    i -= lists;
    if i < txt {
        let place = i / TEXTS.len();
        let n = TEXTS[i % TEXTS.len()];
        let over = !(-10_000..=10_000).contains(&n);
        let bytes = if over { 25_000 } else if n < 0 { n.unsigned_abs() as usize * 2 } else { n as usize };
        let mut t = Vec::new();
        put_i32(&mut t, n);
        let fill: Vec<u8> = (0..bytes).map(|k| if n < 0 && k % 2 == 1 { 0 } else { b'q' }).collect();
        t.extend_from_slice(&fill);
        let mut h = Vec::new();
        put_i32(&mut h, 868);
        put_i32(&mut h, 12);
        if place == 0 {
            h.extend_from_slice(&t);
        } else {
            put_str(&mut h, "x");
        }
        if place == 1 || place == 2 {
            put_str(&mut h, "k");
            put_str(&mut h, if place == 1 { "StrProperty" } else { "NameProperty" });
            h.extend_from_slice(&[0; 8]);
            h.extend_from_slice(&t);
        }
        put_str(&mut h, "None");
        let mut b = Vec::new();
        for l in 0..9 {
            if l == 2 {
                put_i32(&mut b, 0);
            }
            let hit = matches!((place, l), (3, 0) | (4, 2) | (5, 3) | (6, 4) | (7, 5) | (8, 6));
            if hit {
                put_i32(&mut b, 1);
                if l == 2 {
                    put_i32(&mut b, 1);
                }
                b.extend_from_slice(&t);
                if l == 2 {
                    put_i32(&mut b, 0);
                }
                if l == 3 {
                    put_i32(&mut b, 1);
                }
            } else {
                put_i32(&mut b, 0);
            }
        }
        let d = assemble(&h, &b, &[]);
        cx.label("text size");
        cx.nontrivial(&(i as u64 + 10_000).to_le_bytes());
        cx.sample = Some(format!("text of size {n} at place {place}"));
        cx.attach("input", &d);
        cx.evals += 2;
        match (parse(&d, crc, NetworkParse::Never), over) {
            (Ok(r), false) => {
                let got = match place {
                    0 => r.game_type.len(),
                    1 | 2 => r.properties[0].1.as_string().map_or(0, str::len),
                    3 => r.levels[0].len(),
                    4 => r.debug_info[0].user.len(),
                    5 => r.tick_marks[0].description.len(),
                    6 => r.packages[0].len(),
                    7 => r.objects[0].len(),
                    _ => r.names[0].len(),
                };
                if got != (n.unsigned_abs() as usize).saturating_sub(1) {
                    return Err(format!("text of size {n}: {got} characters"));
                }
            }
            (Err(e), true) => {
                if !matches!(root_of(&e), ParseError::TextTooLarge(x) if *x == n) {
                    return Err(format!("text of size {n}: {e:?}"));
                }
            }
            (Ok(_), true) => return Err(format!("text of size {n} accepted")),
            (Err(e), false) => return Err(format!("text of size {n} rejected: {e:?}")),
        }
        vs_ref(cx, &d, crc, NetworkParse::Always)?;
        return Ok(());
    }
    i -= txt;
    if i < ntxt {
        let n = NTEXTS[i % NTEXTS.len()];
        let (kind, place) = NTEXT_PLACES[i / NTEXTS.len()];
        let w = world(g, &WorldOpts { kinds: Some(kind), flat: true, unknown: false, dup: false, actors: 2, max_attrs: 2, ..Default::default() });
        let mut p = BitW::new();
        match kind {
            Kind::UniqueId | Kind::PartyLeader => p.u8(11),
            Kind::RepStatTitle => p.bit(true),
            Kind::PrivateMatchSettings if place > 0 => {
                p.i32(0);
                p.u64(g.bits(60));
                if place > 1 {
                    p.i32(2);
                    p.raw(b"x\0");
                }
            }
            Kind::Reservation => {
                p.bits(3, 3);
                p.u8(1);
                p.u64(g.bits(60));
                p.u8(0);
            }
            Kind::LoadoutOnline => {
                let Some(title) = w.objects.iter().position(|t| t == "TAGame.ProductAttribute_TitleID_TA") else { return Ok(()) };
                p.u8(1);
                p.u8(1);
                p.bit(false);
                p.u32(title as u32);
            }
            _ => {}
        }
        p.i32(n);
        let bytes = if n < 0 { i64::from(n) * -2 } else { i64::from(n) };
        let over = bytes > 1024;
        for k in 0..bytes.min(3000) {
            p.u8(if n < 0 && k % 2 == 1 { 0 } else { b'w' });
        }
        // whatever follows in these attributes
        for _ in 0..60 {
            p.u64(0);
        }
        let Some(bw) = one_update(g, &w, kind, &p) else { return Ok(()) };
        let d = w.spec(Some(1), &bw).build().bytes;
        cx.label("network text size");
        cx.nontrivial(&(i as u64 + 20_000).to_le_bytes());
        cx.sample = Some(format!("{kind:?} with a text of size {n}"));
        cx.evals += 1;
        cx.attach("input", &d);
        let (r, _) = vs_ref(cx, &d, CrcCheck::Always, NetworkParse::Always)?;
        if kind == Kind::LoadoutOnline {
            cx.label("title");
            return match r {
                Err(e) if !over => Err(format!("title of size {n} rejected: {e:?}")),
                Ok(_) if over => Err(format!("title of size {n} accepted")),
                _ => Ok(()),
            };
        }
        let big = matches!(r.as_ref().map_err(classify), Err(RErr::Net(NErr::Frame(FErr::Attr(_, _, _, AErr::BigString(x))))) if x == n);
        if big != over {
            return Err(format!("network text of size {n}: limit {} but error {:?}", if over { "exceeded" } else { "kept" }, r.map(|_| "none").map_err(|e| classify(&e))));
        }
        return Ok(());
    }
    // frame counts
    let w = world(g, &WorldOpts::default());
    let n = *g.pick(&[0usize, 1, 8, 9, 64, 500]);
    let mut bw = BitW::new();
    // zero bits: the first frame is an end marker
    for _ in 0..n {
        bw.u8(0);
    }
    if n >= 64 && g.bool() {
        bw = BitW::new();
        while bw.bytes.len() < n {
            bw.f32(1.0);
            bw.f32(1.0);
            bw.bit(false);
        }
    }
    let l = bw.bytes.len() as i32;
    let nf = *g.pick(&[0, 1, -1, l, l + 1, l - 1, i32::MIN, i32::MAX, 2 * l + 5, 8 * l]);
    let d = w.spec(Some(nf), &bw).build().bytes;
    cx.label("frame count");
    cx.nontrivial(&d);
    cx.sample = Some(format!("NumFrames {nf} over {l} bytes of network data"));
    cx.attach("input", &d);
    cx.evals += 1;
    let (r, _) = vs_ref(cx, &d, CrcCheck::Always, NetworkParse::Always)?;
    let over = nf < 0 || nf > l;
    let told = matches!(&r, Err(ParseError::NetworkError(e)) if matches!(&**e, NetworkError::TooManyFrames(x) if *x == nf));
    if over != told {
        return Err(format!("NumFrames {nf} over {l} bytes: {:?}", r.map(|_| "accepted")));
    }
    if let Ok(r) = &r {
        let k = r.network_frames.as_ref().map_or(0, |f| f.frames.len());
        if k > nf.max(0) as usize {
            return Err(format!("{k} frames with NumFrames {nf}"));
        }
    }
    Ok(())
}

fn root_of(e: &ParseError) -> &ParseError {
    match e {
        ParseError::ParseError(_, _, x) | ParseError::CorruptReplay(_, x) => root_of(x),
        x => x,
    }
}

// --------------------------------------------------------------------- C19

/// `w` as a whole: neither a digit nor a letter, nor a sign in front of a number,
/// continues it.
fn says(m: &str, w: &str) -> bool {
    let (Some(first), Some(last)) = (w.chars().next(), w.chars().last()) else { return true };
    m.match_indices(w).any(|(i, _)| {
        let before = m[..i].chars().next_back();
        let after = m[i + w.len()..].chars().next();
        !(first.is_alphanumeric() && before.is_some_and(|c| c.is_alphanumeric()))
            && !(first.is_ascii_digit() && before == Some('-'))
            && !(last.is_alphanumeric() && after.is_some_and(|c| c.is_alphanumeric()))
    })
}

fn c19_error(d: &[u8], e: &ParseError, info: &Info) -> Result<&'static str, String> {
    let s = exercise_error(e);
    // the chain of sources reaches the cause
    let mut msgs = Vec::new();
    let mut cur: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = cur {
        msgs.push(x.to_string());
        cur = x.source();
    }
    let mut depth = 1;
    let mut cause = e;
    loop {
        match cause {
            ParseError::ParseError(section, at, inner) => {
                if *at < 0 || *at as usize > d.len() {
                    return Err(format!("offset {at} outside the {} bytes of input", d.len()));
                }
                // (a few fields may be read at once)
                if (i64::from(*at) - info.stop as i64).abs() > 16 {
                    return Err(format!("offset {at} although reading stopped at {}", info.stop));
                }
                let m = cause.to_string();
                if !says(&m, &at.to_string()) || section.is_empty() || !m.contains(section) {
                    return Err(format!("message without section or offset: {m:?}"));
                }
                cause = inner;
            }
            ParseError::CorruptReplay(section, inner) => {
                let m = cause.to_string();
                if !m.contains(section.as_str()) {
                    return Err(format!("message without section: {m:?}"));
                }
                cause = inner;
            }
            _ => break,
        }
        depth += 1;
    }
    if let Some(part) = info.part {
        // each word names it somewhere between the section and the cause
        let said = msgs.iter().take(depth).fold(s.to_lowercase(), |a, m| a + &m.to_lowercase());
        let rest = if said.contains("array property size") && part == "property size" { String::new() } else { said };
        if !part.split(' ').all(|w| rest.contains(w)) {
            return Err(format!("the {part} cannot be read but the error says {s:?}"));
        }
    }
    if msgs.len() < depth {
        return Err(format!("the error nests {depth} deep but its source chain has {} entries: {msgs:?}", msgs.len()));
    }
    let m = cause.to_string();
    if msgs[depth - 1] != m {
        return Err(format!("the source chain does not pass through the cause {m:?}: {msgs:?}"));
    }
    let want = |m: &str, what: &[String]| -> Result<(), String> {
        for w in what {
            if !says(m, w) {
                return Err(format!("the message {:?} does not mention {w:?}", m.chars().take(400).collect::<String>()));
            }
        }
        Ok(())
    };
    Ok(match cause {
        ParseError::CrcMismatch(a, b) => {
            want(&m, &[a.to_string(), b.to_string()])?;
            "crc mismatch"
        }
        ParseError::TextTooLarge(n) => {
            want(&m, &[n.to_string()])?;
            "text too large"
        }
        ParseError::ListTooLarge(n) => {
            want(&m, &[n.to_string()])?;
            "list too large"
        }
        ParseError::InsufficientData(a, b) => {
            want(&m, &[a.to_string(), b.to_string()])?;
            if *b < 0 || *b as usize > d.len() {
                return Err(format!("{b} bytes left of {}", d.len()));
            }
            if *a >= 0 && *a <= *b {
                return Err(format!("insufficient data although {a} bytes are wanted and {b} left"));
            }
            if let Some((wanted, left)) = info.lack {
                let declared = !(0..=16).contains(&wanted);
                if (declared && i64::from(*a) != wanted) || (i64::from(*b) - left as i64).abs() > if declared { 0 } else { 16 } {
                    return Err(format!("{wanted} bytes are wanted and {left} left but the error tells of {a} and {b}"));
                }
            }
            "insufficient data"
        }
        ParseError::UnexpectedProperty(k) => {
            want(&m, &[k.clone()])?;
            "unexpected property"
        }
        ParseError::Utf8Error(_) => {
            if msgs.len() <= depth {
                return Err("no source behind a UTF-8 error".into());
            }
            "utf-8"
        }
        ParseError::NetworkError(ne) => {
            if msgs.len() <= depth {
                return Err("no source behind a network error".into());
            }
            if s != ne.to_string() && !s.contains(&ne.to_string()) {
                return Err("the message of a network error is lost".into());
            }
            match &**ne {
                NetworkError::TooManyFrames(n) => {
                    want(&m, &[n.to_string()])?;
                    "too many frames"
                }
                NetworkError::StreamTooLargeIndex(a, b) => {
                    want(&m, &[a.to_string(), b.to_string()])?;
                    "stream index"
                }
                NetworkError::FrameError(fe, _) => {
                    if msgs.len() <= depth + 1 {
                        return Err("no source behind a frame error".into());
                    }
                    want(&m, &[fe.to_string()])?;
                    want(&m, &[format!("{}", info.frame_ends.len())])?;
                    let fm = fe.to_string();
                    match fe {
                        FrameError::NotEnoughDataFor(w) => {
                            want(&fm, &[w.to_string()])?;
                            const PARTS: [&str; 8] = [
                                "time",
                                "delta",
                                "actor data",
                                "actor id",
                                "is new actor",
                                "new actor",
                                "is prop present",
                                "prop id",
                            ];
                            if !PARTS.contains(&w.to_lowercase().as_str()) {
                                return Err(format!("{w:?} is no part of a frame"));
                            }
                            "not enough network data"
                        }
                        FrameError::TimeOutOfRange { time } => {
                            want(&fm, &[time.to_string()])?;
                            "time out of range"
                        }
                        FrameError::DeltaOutOfRange { delta } => {
                            want(&fm, &[delta.to_string()])?;
                            "delta out of range"
                        }
                        FrameError::ObjectIdOutOfRange { obj } => {
                            want(&fm, &[obj.0.to_string()])?;
                            "object out of range"
                        }
                        FrameError::MissingActor { actor } => {
                            want(&fm, &[actor.0.to_string()])?;
                            "missing actor"
                        }
                        FrameError::MissingCache { actor, actor_object } => {
                            want(&fm, &[actor.0.to_string(), actor_object.0.to_string()])?;
                            "missing cache"
                        }
                        FrameError::MissingAttribute { actor, actor_object, attribute_stream } => {
                            want(&fm, &[actor.0.to_string(), actor_object.0.to_string(), attribute_stream.0.to_string()])?;
                            "missing attribute"
                        }
                        FrameError::AttributeError { actor, actor_object, attribute_stream, error } => {
                            want(
                                &fm,
                                &[actor.0.to_string(), actor_object.0.to_string(), attribute_stream.0.to_string(), error.to_string()],
                            )?;
                            if msgs.len() <= depth + 2 {
                                return Err("no source behind an attribute error".into());
                            }
                            match error {
                                AttributeError::UnrecognizedRemoteId(x) => want(&error.to_string(), &[x.to_string()])?,
                                AttributeError::TooBigString(x) => want(&error.to_string(), &[x.to_string()])?,
                                AttributeError::NotEnoughDataFor(x) => {
                                    want(&error.to_string(), &[x.to_string()])?;
                                    let ids = (actor.0, actor_object.0, attribute_stream.0);
                                    missing_part(x, ids, info)?
                                }
                                AttributeError::Unimplemented => {}
                            }
                            "attribute error"
                        }
                    }
                }
                _ => "other network error",
            }
        }
        ParseError::ParseError(..) | ParseError::CorruptReplay(..) => unreachable!(),
    })
}

/// The names under which the parts of an attribute are reported missing.
fn parts_of(k: Kind) -> Vec<&'static str> {
    const ID: [&str; 13] = [
        "System id",
        "SplitScreen",
        "Steam",
        "PS4 Name",
        "PS4 Unknown",
        "PS4 ID",
        "Xbox",
        "QQ ID",
        "Switch ID",
        "Switch ID Unknown",
        "PsyNet ID",
        "PsyNet ID Unknown",
        "UniqueId local_id",
    ];
    let text = "text string";
    match k {
        Kind::ActiveActor => vec!["Active Actor"],
        Kind::AppliedDamage => vec!["Applied Damage"],
        Kind::Boolean => vec!["Boolean"],
        Kind::Byte => vec!["Byte"],
        Kind::CamSettings => vec!["Cam Settings"],
        Kind::ClubColors => vec!["Club Colors"],
        Kind::DamageState => vec!["Damage State"],
        Kind::Demolish => vec!["Demolish"],
        Kind::DemolishExtended => vec!["DemolishExtended"],
        Kind::DemolishFx => vec!["DemolishFx"],
        Kind::Enum => vec!["Enum"],
        Kind::Explosion => vec!["Explosion"],
        Kind::ExtendedExplosion => vec!["Extended Explosion"],
        Kind::FlaggedByte => vec!["FlaggedByte"],
        Kind::Float => vec!["Float"],
        Kind::GameMode => vec!["Game Mode"],
        Kind::Impulse => vec!["Impulse"],
        Kind::Int => vec!["Int"],
        Kind::Int64 => vec!["Int64"],
        Kind::Loadout => vec!["Loadout"],
        Kind::LoadoutOnline => vec!["Loadout Online"],
        Kind::LoadoutsOnline => vec!["Loadouts online"],
        Kind::Location => vec!["Location"],
        Kind::LogoData => vec!["LogoData"],
        Kind::MusicStinger => vec!["Music Stinger"],
        Kind::PartyLeader => [&ID[..], &["Party Leader", text]].concat(),
        Kind::Pickup => vec!["Pickup"],
        Kind::PickupInfo => vec!["Pickup Info"],
        Kind::PickupNew => vec!["PickupNew"],
        Kind::PlayerHistoryKey => vec!["PlayerHistoryKey"],
        Kind::PrivateMatchSettings => vec!["Private Match", text],
        Kind::QWordString => vec!["QWord", text],
        Kind::RepStatTitle => vec!["RepStatTitle", text],
        Kind::ReplicatedBoost => vec!["ReplicatedBoost"],
        Kind::Reservation => [&ID[..], &["Reservation", text]].concat(),
        Kind::RigidBody => vec!["Rigid Body"],
        Kind::RotationTag => vec!["Rotation"],
        Kind::StatEvent => vec!["Stat Event"],
        Kind::String => vec![text],
        Kind::TeamLoadout => vec!["Team Loadout"],
        Kind::TeamPaint => vec!["Team Paint"],
        Kind::Title => vec!["Title"],
        Kind::UniqueId => [&ID[..], &[text]].concat(),
        Kind::Welded => vec!["Welded"],
        Kind::Unknown => vec![],
    }
}

/// Missing data is reported for a part of the attribute that was being read.
fn missing_part(part: &str, ids: (i32, i32, i32), info: &Info) -> Result<(), String> {
    let k = match info.failed_attr {
        Some((a, o, s, k)) if (a, o, s) == ids => k,
        _ => return Ok(()),
    };
    let plain = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
    if !parts_of(k).iter().any(|p| plain(p) == plain(part)) {
        return Err(format!("{part:?} is reported missing while a {k:?} was read"));
    }
    Ok(())
}

/// Which list or field of the body a parse stops in, told by cutting it.
const SECTIONS: [&[&str]; 10] = [
    &["level"],
    &["keyframe"],
    &["network"],
    &["debug"],
    &["tick"],
    &["package"],
    &["object"],
    &["name"],
    &["class"],
    &["cache"],
];

fn c19(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    match g.weighted(&[25, 30, 10, 1]) {
        3 => {
            // a declared size beyond what is left, with much of it left
            let mut s = Spec::new(version(g));
            s.props.push(simple_prop("aKey", &HeaderProp::Int(5)));
            let mut sizes = vec![9usize, 33_000, 70_000, 200_000];
            if g.chance(1, 20) {
                sizes.push(17 << 20);
            }
            s.net = vec![1; *g.pick(&sizes)];
            s.classes = vec![("aClass".into(), 5)];
            let trailing = vec![b'x'; *g.pick(&sizes)];
            let (h, b) = (s.header_bytes(), s.body_bytes().0);
            let mut d = assemble(&h, &b, &trailing);
            let find = |w: &[u8]| d.windows(w.len()).position(|x| x == w).map(|i| i - 4);
            let (what, at, from) = match g.below(5) {
                0 => ("header size", Some(0), 8),
                1 => ("content size", Some(8 + h.len()), 8),
                2 => ("property name", find(b"aKey\0"), 4),
                3 => ("class name", find(b"aClass\0"), 4),
                _ => ("network data", ref_parse(&d, CrcCheck::Never, NetworkParse::Never, false).1.net.map(|n| n.0 - 4), 4),
            };
            let Some(at) = at else { return Ok(()) };
            let left = (d.len() - at - from) as i32;
            let n = *g.pick(&[left + 1, left + 2, left + 65_536, i32::MAX, -1, i32::MIN, -left]);
            d[at..at + 4].copy_from_slice(&n.to_le_bytes());
            cx.label("declared size beyond what is left");
            cx.nontrivial(&[&d[..d.len().min(200)], &n.to_le_bytes(), &left.to_le_bytes()].concat());
            if d.len() < 1 << 20 {
                cx.attach("input", &d);
            }
            cx.evals += 1;
            let crc = *g.pick(&[CrcCheck::Never, CrcCheck::OnError]);
            let (r, info) = vs_ref(cx, &d, crc, NetworkParse::Never)?;
            let Err(e) = r else { return Err(format!("{what} of {n} bytes accepted with {left} left")) };
            c19_error(&d, &e, &info)?;
            cx.sample = Some(format!("{what}: {n} of {left} bytes: {e}").chars().take(160).collect());
        }
        0 => {
            let f = any_file(g, 30_000);
            let (d, how) = if g.chance(1, 5) {
                // the file ends inside a section and the sizes say so
                let (mut h, mut b) = (f.d[f.header.clone()].to_vec(), f.d[f.body.clone()].to_vec());
                if g.bool() {
                    h.truncate(cut_at(g, &h));
                    let mut d = assemble(&h, &[], &[]);
                    d.truncate(8 + h.len());
                    (d, "the file ends inside the header")
                } else {
                    b.truncate(cut_at(g, &b));
                    (assemble(&h, &b, &[]), "the file ends inside the body")
                }
            } else {
                damage(g, &f)
            };
            cx.label(how);
            for crc in CRCS {
                cx.evals += 1;
                let (r, info) = vs_ref(cx, &d, crc, NetworkParse::Always)?;
                if let Err(e) = &r {
                    cx.nontrivial(&d);
                    cx.attach("input", &d);
                    let l = c19_error(&d, e, &info)?;
                    cx.label(l);
                    error_context(cx, e, &info)?;
                    cx.sample = Some(e.to_string().chars().take(160).collect());
                }
            }
        }
        1 => {
            let crowded = g.chance(1, 12);
            let wo = if crowded { WorldOpts { actors: 24, max_attrs: 24, ..Default::default() } } else { WorldOpts::default() };
            let mut w = world(g, &wo);
            if crowded {
                // many classes with something of their own at one stream id
                let mut cache = w.cache.clone();
                let s = g.range(0, 20) as i32;
                let attrs: Vec<i32> = cache.iter().flat_map(|e| e.properties.iter().map(|p| p.object_ind)).collect();
                for (i, e) in cache.iter_mut().enumerate() {
                    if attrs.is_empty() || g.chance(1, 6) {
                        continue;
                    }
                    e.properties.retain(|p| p.stream_id != s);
                    e.properties.push(CacheProp { object_ind: attrs[i % attrs.len()], stream_id: s });
                }
                w.replace_cache(cache);
                cx.label("classes sharing a stream id");
            }
            let c = crate::props::net::net_case_in(g, w, &HistOpts { fault: true, ..Default::default() });
            let d = &c.b.bytes;
            cx.evals += 1;
            let (r, info) = vs_ref(cx, d, CrcCheck::Always, NetworkParse::Always)?;
            if let Err(e) = &r {
                cx.nontrivial(d);
                cx.attach("input", d);
                let l = c19_error(d, e, &info)?;
                cx.label(l);
                error_context(cx, e, &info)?;
                cx.sample = Some(e.to_string().chars().take(160).collect());
                network_context(&c, e, &info)?;
            }
        }
        _ => {
            // one list of the body made impossible: the error names it
            let mut s = Spec::new(ver(868, 20, 2));
            s.levels = vec![Text::plain("l")];
            s.keyframes = vec![(1, 2, 3)];
            s.net = vec![0; 9];
            s.debug = vec![(1, Text::plain("u"), Text::plain("t"))];
            s.ticks = vec![(Text::plain("g"), 4)];
            s.packages = vec![Text::plain("p")];
            s.objects = vec![Text::plain("o")];
            s.names = vec![Text::plain("n")];
            s.classes = vec![("c".into(), 5)];
            s.cache = vec![ClassNetCache { object_ind: 0, parent_id: 0, cache_id: 0, properties: vec![] }];
            let k = g.enumerate(10) as usize;
            let (h, full) = (s.header_bytes(), s.body_bytes().0);
            // sizes of the parts
            let sizes = [4 + 6, 4 + 12, 4 + 9, 4 + 4 + 6 + 6, 4 + 6 + 4, 4 + 6, 4 + 6, 4 + 6, 4 + 6 + 4, 4 + 16];
            assert_eq!(sizes.iter().sum::<usize>(), full.len(), "harness: body layout");
            let at: usize = sizes[..k].iter().sum();
            let mut b = full.clone();
            // too many elements, or not enough data
            let cut = g.bool();
            if cut {
                b.truncate(at + g.usize(4, sizes[k] - 1));
            } else {
                b[at..at + 4].copy_from_slice(&i32::MAX.to_le_bytes());
            }
            let d = assemble(&h, &b, &[]);
            cx.nontrivial(&d);
            cx.attach("input", &d);
            cx.label("error names the section");
            cx.evals += 1;
            let (r, info) = vs_ref(cx, &d, CrcCheck::Always, NetworkParse::Never)?;
            match r {
                Ok(_) => return Err(format!("impossible {:?} accepted", SECTIONS[k])),
                Err(e) => {
                    c19_error(&d, &e, &info)?;
                    let m = e.to_string().to_lowercase();
                    cx.sample = Some(m.clone());
                    if !SECTIONS[k].iter().any(|w| m.contains(w)) {
                        return Err(format!("the {} are damaged but the error says {m:?}", SECTIONS[k][0]));
                    }
                    if let ParseError::ParseError(_, off, _) = &e {
                        let lo = 16 + h.len() + at;
                        let hi = 16 + h.len() + at + sizes[k];
                        if (*off as usize) < lo || *off as usize > hi {
                            return Err(format!("offset {off} is outside the damaged part {lo}..{hi}"));
                        }
                    } else {
                        return Err(format!("no section in {e:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

/// A frame error tells what was decoded last: in the frame that failed, or in
/// the last frame before it with anything in it.
fn error_context(cx: &mut Cx, e: &ParseError, info: &Info) -> Result<(), String> {
    let mut c = e;
    while let ParseError::ParseError(_, _, x) | ParseError::CorruptReplay(_, x) = c {
        c = x;
    }
    let (ParseError::NetworkError(_), Some(p)) = (c, &info.partial) else { return Ok(()) };
    if info.near_end() {
        // one of the two may have run out of data an element earlier
        return Ok(());
    }
    let m = e.to_string();
    let name = |o: i32| usize::try_from(o).ok().and_then(|o| p.names.get(o)).cloned().unwrap_or_default();
    let mut want: Vec<String> = Vec::new();
    let update = |u: &UpdatedAttribute, want: &mut Vec<String>| {
        want.push(format!("actor id: {}", u.actor_id.0));
        want.push(format!("stream id: {}", u.stream_id.0));
        want.push(format!("object id: {}", u.object_id.0));
        want.push(format!("object name: {}", name(u.object_id.0)));
        want.push(format!("{:?}", u.attribute));
        if let Some(o) = p.live.get(&u.actor_id.0) {
            want.push(format!("object id: {o}"));
            want.push(format!("object name: {}", name(*o)));
        }
    };
    let new = |n: &NewActor, want: &mut Vec<String>| {
        want.push(format!("actor id: {}", n.actor_id.0));
        if let Some(x) = n.name_id {
            want.push(format!("name id: {x}"));
        }
        want.push(format!("object id: {}", n.object_id.0));
        want.push(format!("object name: {}", name(n.object_id.0)));
        want.push(format!("{:?}", n.initial_trajectory.location));
        want.push(format!("{:?}", n.initial_trajectory.rotation));
    };
    let last = |upd: &[UpdatedAttribute], news: &[NewActor], want: &mut Vec<String>| match (upd.last(), news.last()) {
        (Some(u), _) => {
            update(u, want);
            true
        }
        (None, Some(n)) => {
            new(n, want);
            true
        }
        _ => false,
    };
    if last(&p.upd, &p.new, &mut want) {
        cx.label("context: event of the failed frame");
    } else if let Some((i, f)) =
        p.frames.iter().enumerate().rev().find(|(_, f)| !f.updated_actors.is_empty() || !f.new_actors.is_empty())
    {
        cx.label("context: event of an earlier frame");
        last(&f.updated_actors, &f.new_actors, &mut want);
        want.push(format!("Retrace frame: {i} (time: {}, delta: {})", f.time, f.delta));
    } else {
        cx.label("context: no events");
        want.push("No actor information".into());
    }
    let t = p.frames.last().map(|f| (f.time, f.delta)).unwrap_or_default();
    want.push(format!("Current frame: {} (time: {} delta: {})", p.frames.len(), t.0, t.1));
    for w in want {
        if !says(&m, &w) {
            return Err(format!("the message does not say {w:?}: {:?}", m.chars().take(900).collect::<String>()));
        }
    }
    Ok(())
}

/// A frame error tells the frame, and the names of the objects involved.
fn network_context(c: &crate::props::net::NetCase, e: &ParseError, info: &Info) -> Result<(), String> {
    let ParseError::NetworkError(ne) = e else { return Ok(()) };
    let NetworkError::FrameError(fe, _) = &**ne else { return Ok(()) };
    let m = e.to_string();
    let name = |o: i32| c.w.objects.get(o as usize).cloned().unwrap_or_default();
    let want = match fe {
        FrameError::MissingCache { actor_object, .. }
        | FrameError::MissingAttribute { actor_object, .. }
        | FrameError::AttributeError { actor_object, .. } => Some(name(actor_object.0)),
        _ => None,
    };
    // an attribute that is listed but not implemented is named instead
    let unimplemented = match fe {
        FrameError::MissingAttribute { actor_object, attribute_stream, .. } => c
            .w
            .res
            .caches
            .get(actor_object.0 as usize)
            .and_then(|x| x.as_ref())
            .and_then(|x| x.attrs.get(&attribute_stream.0))
            .filter(|(_, k)| *k == Kind::Unknown)
            .map(|(o, _)| name(*o)),
        _ => None,
    };
    if let (None, FrameError::MissingAttribute { attribute_stream, .. }) = (&unimplemented, fe) {
        // whoever else uses the stream id
        for a in c.w.res.caches.iter().flatten().filter_map(|x| x.attrs.get(&attribute_stream.0)) {
            let w = format!("({})", name(a.0));
            if !m.contains(&w) {
                return Err(format!("the message does not name {w:?}, which has the same stream id: {:?}", m.chars().take(900).collect::<String>()));
            }
        }
    }
    if let Some(w) = unimplemented.or(want) {
        if !m.contains(&w) {
            return Err(format!("the message does not name {w:?}: {:?}", m.chars().take(500).collect::<String>()));
        }
    }
    let line = format!("Current frame: {}", info.frame_ends.len());
    if !says(&m, &line) {
        return Err(format!("the message does not say {line:?}: {m:?}"));
    }
    Ok(())
}

// --------------------------------------------------------------------- C21

fn c21_total() -> u64 {
    corpus(usize::MAX).len() as u64
}

fn c21(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let all = corpus(usize::MAX);
    if all.is_empty() {
        // nothing to compare: fall back on a generated file
        let f = any_file(g, 0);
        cx.label("no real replays found");
        vs_ref(cx, &f.d, CrcCheck::Always, NetworkParse::Always)?;
        cx.nontrivial(&f.d);
        return Ok(());
    }
    let small = corpus(400_000);
    let i = g.enumerate(1 << 40);
    if i < all.len() as u64 {
        let (name, d) = &all[i as usize];
        cx.evals += 2;
        let (r, info) = vs_ref(cx, d, CrcCheck::Always, NetworkParse::Always)?;
        cx.label(if r.is_ok() { "real replay accepted" } else { "real replay rejected" });
        cx.nontrivial(name.as_bytes());
        cx.sample = Some(format!("{name}: {} frames, {} objects", info.frame_ends.len(), info.objects));
        if let Err(e) = &r {
            exercise_error(e);
        }
        vs_ref(cx, d, CrcCheck::OnError, NetworkParse::IgnoreOnError)?;
        return Ok(());
    }
    mutated(g, cx, small, all)
}

/// A real replay with parts exchanged, renamed or added, put together again with
/// right sizes and checksums.
fn remix(g: &mut G, f: &File) -> Option<(Vec<u8>, &'static str)> {
    let (r, _) = ref_parse(&f.d, CrcCheck::Never, NetworkParse::Never, false);
    let r = r.ok()?;
    let mut h = f.d[f.header.clone()].to_vec();
    let mut s = Spec::new(ver(r.major_version, r.minor_version, r.net_version.unwrap_or(0)));
    s.levels = r.levels.iter().map(|x| Text::plain(x)).collect();
    s.keyframes = r.keyframes.iter().map(|k| (k.time.to_bits(), k.frame, k.position)).collect();
    s.net = f.d[f.net.clone()].to_vec();
    s.debug = r.debug_info.iter().map(|d| (d.frame, Text::plain(&d.user), Text::plain(&d.text))).collect();
    s.ticks = r.tick_marks.iter().map(|t| (Text::plain(&t.description), t.frame)).collect();
    s.packages = r.packages.iter().map(|x| Text::plain(x)).collect();
    s.objects = r.objects.iter().map(|x| Text::plain(x)).collect();
    s.names = r.names.iter().map(|x| Text::plain(x)).collect();
    s.classes = r.class_indices.iter().map(|c| (c.class.clone(), c.index)).collect();
    s.cache = r.net_cache.clone();
    let mut how = "";
    for _ in 0..*g.pick(&[1usize, 1, 1, 2, 3]) {
        let n = s.objects.len();
        how = match g.below(12) {
            0 | 1 => {
                let k = *g.pick(SPECIAL);
                let v = match g.below(3) {
                    0 => HeaderProp::Name((*g.pick(&["Lan", "Online", "221120.42953.406184", "1"])).into()),
                    _ => HeaderProp::Int(*g.pick(&[0, 1, 5, 100, 1023, 1024, 2047, -1])),
                };
                let p = simple_prop(k, &v).wire;
                if g.bool() {
                    // in front of the properties
                    let at = if r.net_version.is_some() { 12 } else { 8 };
                    let size = i32::from_le_bytes(h.get(at..at + 4)?.try_into().ok()?);
                    let len = if size < 0 { 2 * size.unsigned_abs() as usize } else { size as usize };
                    let at = at + 4 + len;
                    h.splice(at..at, p);
                    "property put first"
                } else {
                    // before the closing None
                    let at = h.len().checked_sub(9)?;
                    h.splice(at..at, p);
                    "property put last"
                }
            }
            2 => {
                if n > 1 {
                    let (i, j) = (g.usize(0, n - 1), g.usize(0, n - 1));
                    s.objects.swap(i, j);
                }
                "two objects exchanged"
            }
            3 => {
                if n > 0 {
                    let i = g.usize(0, n - 1);
                    let nm = match g.below(4) {
                        0 => ATTRS[g.usize(0, ATTRS.len() - 1)].0.to_string(),
                        1 => (*g.pick(PARENTS)).0.to_string(),
                        2 => level_instance(g),
                        _ => name(g),
                    };
                    s.objects[i] = Text::plain(&nm);
                }
                "an object renamed"
            }
            4 => {
                let nm = if g.bool() { (*g.pick(PARENTS)).0.to_string() } else { (*g.pick(PRODUCTS)).to_string() };
                s.objects.push(Text::plain(&nm));
                "an object added"
            }
            5 => {
                shuffle(g, &mut s.cache);
                "cache entries in another order"
            }
            6 => {
                let c = s.cache.len();
                if c > 0 {
                    let i = g.usize(0, c - 1);
                    s.cache.remove(i);
                }
                "a cache entry removed"
            }
            7 => {
                let c = s.cache.len();
                if c > 0 {
                    let i = g.usize(0, c - 1);
                    let mut e = s.cache[i].clone();
                    if g.bool() {
                        e.properties.truncate(1);
                    }
                    e.object_ind = g.usize(0, n.max(1) - 1) as i32;
                    s.cache.push(e);
                }
                "a cache entry copied"
            }
            8 | 9 => {
                let c = s.cache.len();
                if c > 0 {
                    let i = g.usize(0, c - 1);
                    let k = s.cache[i].properties.len();
                    if k > 0 {
                        let j = g.usize(0, k - 1);
                        let p = &mut s.cache[i].properties[j];
                        if g.bool() {
                            p.stream_id = (p.stream_id as i64 + g.range(-3, 3)) as i32;
                        } else {
                            p.object_ind = g.usize(0, n) as i32;
                        }
                    }
                }
                "a stream id changed"
            }
            10 => {
                // versions that keep the layout of the header
                let at = if g.bool() { 4 } else { 8 };
                let v = if at == 4 { g.range(18, 33) } else { g.range(0, 12) } as i32;
                if h.len() > 12 && s.ver.has_net() {
                    h[at..at + 4].copy_from_slice(&v.to_le_bytes());
                }
                "another version"
            }
            _ => {
                let t = with_net(f, &s.net).len();
                let k = g.usize(0, t.min(64));
                s.net.extend(g.bytes(k));
                "bytes behind the frames"
            }
        };
    }
    Some((assemble(&h, &s.body_bytes().0, &[]), how))
}

/// A real replay with whole frames repeated, left out, exchanged, retimed or
/// followed by the end marker.
fn reframe(g: &mut G, f: &File) -> Option<(Vec<u8>, &'static str)> {
    static ENDS: Mutex<BTreeMap<u64, Arc<Vec<usize>>>> = Mutex::new(BTreeMap::new());
    let key = crate::engine::hash_bytes(1, &f.d);
    let known = ENDS.lock().unwrap().get(&key).cloned();
    let ends = match known {
        Some(e) => e,
        None => {
            let (_, info) = ref_parse(&f.d, CrcCheck::Never, NetworkParse::Always, false);
            let mut e = vec![0];
            e.extend(info.frame_ends);
            let e = Arc::new(e);
            ENDS.lock().unwrap().insert(key, e.clone());
            e
        }
    };
    let net = &f.d[f.net.clone()];
    let bit = |i: usize| net[i / 8] >> (i % 8) & 1 == 1;
    let n = ends.len() - 1;
    if n == 0 {
        return None;
    }
    let k = if g.chance(1, 4) { *g.pick(&[0, n - 1]) } else { g.usize(0, n - 1) };
    let whole = |k: usize| ends[k]..ends[k + 1];
    let all = net.len() * 8;
    // what the new data is made of: ranges of the old and words
    enum P {
        Old(Range<usize>),
        Word(u32),
    }
    let (parts, how) = match g.below(6) {
        0 => {
            let at = *g.pick(&[ends[k], ends[k], ends[k + 1]]);
            (vec![P::Old(0..at), P::Word(0), P::Word(0), P::Old(at..all)], "end marker between frames")
        }
        1 => (vec![P::Old(0..ends[k + 1]), P::Old(whole(k)), P::Old(ends[k + 1]..all)], "a frame repeated"),
        2 => (vec![P::Old(0..ends[k]), P::Old(ends[k + 1]..all)], "a frame left out"),
        3 => {
            let j = g.usize(0, n - 1);
            let (a, b) = (k.min(j), k.max(j));
            if a == b {
                return None;
            }
            (
                vec![P::Old(0..ends[a]), P::Old(whole(b)), P::Old(ends[a + 1]..ends[b]), P::Old(whole(a)), P::Old(ends[b + 1]..all)],
                "two frames exchanged",
            )
        }
        4 => {
            let mut x = || match g.below(6) {
                0 => 0,
                1 => 0x8000_0000,
                2 => 0x2edb_e6ff + g.below(3) as u32 - 1,
                3 => g.word(),
                4 => g.f32(true).to_bits(),
                _ => 0x3f80_0000,
            };
            let (t, d) = (x(), x());
            (vec![P::Old(0..ends[k]), P::Word(t), P::Word(d), P::Old(ends[k] + 64..all)], "a frame retimed")
        }
        _ => {
            let w = g.word();
            let at = g.usize(ends[k], ends[k + 1]);
            (vec![P::Old(0..at), P::Word(w), P::Old(at..all)], "32 bits put in between")
        }
    };
    let mut out: Vec<u8> = Vec::with_capacity(net.len() + 64);
    let mut len = 0usize;
    let mut push = |b: bool| {
        if len % 8 == 0 {
            out.push(0);
        }
        if b {
            *out.last_mut().unwrap() |= 1 << (len % 8);
        }
        len += 1;
    };
    for p in parts {
        match p {
            P::Old(r) => r.for_each(|i| push(bit(i))),
            P::Word(w) => (0..32).for_each(|i| push(w >> i & 1 == 1)),
        }
    }
    Some((with_net(f, &out), how))
}

fn mutated(g: &mut G, cx: &mut Cx, small: &[(String, Vec<u8>)], all: &[(String, Vec<u8>)]) -> Result<(), String> {
    let c = if small.is_empty() { &all[..1] } else { small };
    let (name, d) = g.pick(c);
    let Some(f) = file_of(d, "real replay") else {
        cx.label("damaged beyond sections");
        vs_ref(cx, d, CrcCheck::OnError, NetworkParse::IgnoreOnError)?;
        return Ok(());
    };
    let other = match g.weighted(&[3, 3, 2]) {
        0 => None,
        1 => remix(g, &f),
        _ => reframe(g, &f),
    };
    let (m, how) = match other {
        Some(x) => x,
        None => damage(g, &f),
    };
    cx.label(how);
    cx.nontrivial(&m);
    cx.evals += 1;
    cx.sample = Some(format!("{name}: {how}"));
    let crc = *g.pick(&CRCS);
    let (r, info) = vs_ref(cx, &m, crc, NetworkParse::Always)?;
    match &r {
        Ok(_) => cx.label("damaged replay accepted"),
        Err(e) => {
            exercise_error(e);
            cx.label(if info.net.is_some() { "rejected in the network data" } else { "rejected before the network data" });
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            title: "Parsing is total",
            rule: "the input has reached parse under all nine option combinations; counted once per distinct input",
            case: c01,
            quick: 80_000,
            thorough: 4_000_000,
            guided: 1_500,
            enumerated: none,
            assumptions: &["threads with a 2 MB stack, as std::thread and test harnesses give them"],
        },
        Prop {
            id: "C02",
            title: "Header fidelity",
            rule: "the generated header has at least one property; counted once per distinct header",
            case: c02,
            quick: 500_000,
            thorough: 25_000_000,
            guided: 100_000,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C03",
            title: "Body and footer fidelity",
            rule: "at least three of the nine lists of the body have elements; counted once per distinct body",
            case: c03,
            quick: 150_000,
            thorough: 7_500_000,
            guided: 6_000,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C04",
            title: "Text decoding",
            rule: "the text is not empty; counted once per distinct encoded text",
            case: c04,
            quick: 150_000,
            thorough: 7_500_000,
            guided: 24_000,
            enumerated: c04_total,
            assumptions: &["encodings as in the WHATWG standard (index-windows-1252, UTF-16LE with replacement characters)"],
        },
        Prop {
            id: "C06",
            title: "Checksum policies",
            rule: "the file went through all combinations of right and wrong checksums and the three policies",
            case: c06,
            quick: 60_000,
            thorough: 2_000_000,
            guided: 600,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C07",
            title: "Network policies",
            rule: "header and body parse, so that the network policy decides the outcome; counted once per distinct file",
            case: c07,
            quick: 100_000,
            thorough: 5_000_000,
            guided: 1_200,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C13",
            title: "Truncation is detected",
            rule: "the uncut file parses; each case tries its strict prefixes under nine option combinations",
            case: c13,
            quick: 20_000,
            thorough: 750_000,
            guided: 200,
            enumerated: c13_none,
            assumptions: &[],
        },
        Prop {
            id: "C16",
            title: "Parsing is a function of the bytes",
            rule: "the input was parsed again at another address, after another file, on other threads and with data appended",
            case: c16,
            quick: 40_000,
            thorough: 1_000_000,
            guided: 400,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C17",
            title: "Memory stays in proportion to the input",
            rule: "the heap use of parsing and of formatting the error was measured; counted once per distinct input",
            case: c17,
            quick: 15_000,
            thorough: 750_000,
            guided: 0,
            enumerated: c17_total,
            assumptions: &["heap measured through the global allocator of the checking process, on the parsing thread"],
        },
        Prop {
            id: "C18",
            title: "Limits",
            rule: "one list length, text size or frame count at or next to its limit",
            case: c18,
            quick: 20_000,
            thorough: 1_000_000,
            guided: 10_000,
            enumerated: c18_total,
            assumptions: &[],
        },
        Prop {
            id: "C19",
            title: "Errors tell what is wrong",
            rule: "the parse failed, so that there was an error to judge; counted once per distinct input",
            case: c19,
            quick: 120_000,
            thorough: 6_000_000,
            guided: 20_000,
            enumerated: none,
            assumptions: &[],
        },
        Prop {
            id: "C21",
            title: "Agreement with a second decoder",
            rule: "a real replay, as it is or damaged in one of its sections; counted once per distinct input",
            case: c21,
            quick: 9_000,
            thorough: 150_000,
            guided: 300,
            enumerated: c21_total,
            assumptions: &["the replays under /repo/assets/replays"],
        },
    ]
}
