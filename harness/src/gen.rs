//! Generators: texts, header properties, whole replay files, object worlds,
//! attribute payloads, frame histories and mutations.

use crate::engine::{Rng, G};
use crate::model::*;
use crate::refdec::{r_frames, Bits, Ctx, NetIn, NetOut};
use crate::tables::{ATTRS, PARENTS, SPAWNS};
use crate::wire::*;
use boxcars::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------- text

fn ascii(g: &mut G, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'A' + g.below(58) as u8).collect()
}

/// UTF-16 units with surrogate pairs, lone surrogates and BOMs.
fn units(g: &mut G, n: usize) -> Vec<u16> {
    let mut v: Vec<u16> = Vec::with_capacity(n);
    while v.len() < n {
        match g.below(8) {
            0 | 1 => v.push(b'a' as u16 + g.below(26) as u16),
            2 => v.push(*g.pick(&[0u16, 0x20ac, 0x2623, 0xe9, 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xfffe, 0xffff, 0xfeff])),
            3 => {
                v.push(0xd800 + g.below(0x400) as u16);
                v.push(0xdc00 + g.below(0x400) as u16);
            }
            4 => v.push(*g.pick(&[0xd800u16, 0xdbff, 0xdc00, 0xdfff])),
            5 => v.push(0xfeff),
            _ => v.push(g.below(0x1_0000) as u16),
        }
    }
    v.truncate(n);
    v
}

/// Bytes that also form valid UTF-8 sequences, which must not be taken for UTF-8.
pub fn utf8_like(g: &mut G, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 4);
    while v.len() < n {
        let c: &[u8] = *g.pick(&[
            &b"a"[..],
            &[0xc3, 0xa9],
            &[0xc2, 0x80],
            &[0xc2, 0x9f],
            &[0xe2, 0x82, 0xac],
            &[0xf0, 0x9f, 0x98, 0x80],
            &[0xef, 0xbf, 0xbd],
            b"_1",
        ]);
        v.extend_from_slice(c);
    }
    while v.len() > n {
        v.pop();
    }
    v
}

/// Characters a tidy reader might strip from the end or the start.
const STRIP8: &[u8] = &[0, b' ', b'\n', b'\t', b'\r', 0xa0, 0x0b, b'"'];

/// A text of at most `cap` characters on the wire (terminator included).
pub fn text_n(g: &mut G, n: usize, wide: bool) -> Text {
    // n counts the terminator
    if n == 0 {
        return Text::empty();
    }
    if wide {
        let term = if g.chance(1, 6) { g.below(0x1_0000) as u16 } else { 0 };
        let mut u = if n > 200 { units(g, 24) } else { units(g, n - 1) };
        while u.len() < n - 1 {
            let k = (n - 1 - u.len()).min(u.len().max(1));
            let c: Vec<u16> = u[..k.min(u.len())].to_vec();
            u.extend(if c.is_empty() { vec![0x61] } else { c });
        }
        if n > 1 && g.chance(1, 10) {
            u[0] = *g.pick(&[0xfeffu16, 0xfffe]);
        }
        if n > 1 && g.chance(1, 8) {
            let k = g.usize(1, (n - 1).min(3));
            for i in 0..k {
                u[n - 2 - i] = *g.pick(&[0u16, 0x20, 0xa, 0xa0, 0x3000, 0xfeff, 0xd800]);
            }
        }
        if n > 1 && g.chance(1, 16) {
            u[0] = *g.pick(&[0u16, 0x20, 0xa]);
        }
        Text::utf16(&u, term)
    } else {
        let term = if g.chance(1, 6) { g.below(256) as u8 } else { 0 };
        let mut b = match g.below(4) {
            0 => vec![b'a' + g.below(26) as u8; n - 1],
            1 => g.bytes(n - 1),
            2 => utf8_like(g, n - 1),
            _ => {
                let k = (n - 1).min(20);
                let mut v = ascii(g, k);
                v.resize(n - 1, b'z');
                v
            }
        };
        if n > 1 && g.chance(1, 8) {
            let i = g.usize(0, n - 2);
            b[i] = 0x80 + g.below(0x20) as u8;
        }
        if n > 1 && g.chance(1, 8) {
            let k = g.usize(1, (n - 1).min(3));
            for i in 0..k {
                b[n - 2 - i] = *g.pick(STRIP8);
            }
        }
        if n > 1 && g.chance(1, 16) {
            b[0] = *g.pick(STRIP8);
        }
        if n > 3 && g.chance(1, 10) {
            b[..3].copy_from_slice(&[0xef, 0xbb, 0xbf]);
        } else if n > 2 && g.chance(1, 20) {
            b[..2].copy_from_slice(g.pick(&[[0xff, 0xfe], [0xfe, 0xff]]));
        }
        Text::latin(&b, term)
    }
}

pub fn text(g: &mut G) -> Text {
    if g.chance(1, 40) {
        return Text::plain(g.pick(&["None", "NumFrames", "IntProperty", "Lan", "null", "true", "0", "a\r\nb"]));
    }
    let n = match g.weighted(&[10, 3, 2, 1]) {
        0 => g.usize(1, 14),
        1 => g.usize(0, 2),
        2 => g.usize(14, 70),
        _ => *g.pick(&[127usize, 128, 129, 255, 256, 257, 400]),
    };
    let wide = g.chance(1, 3);
    text_n(g, n, wide)
}

pub fn text_big(g: &mut G) -> Text {
    let n = *g.pick(&[1023usize, 1024, 1025, 4095, 4096, 9998, 9999, 10_000]);
    let wide = g.bool();
    text_n(g, n, wide)
}

/// A UTF-8 string for keys, kinds and class names.
pub fn name(g: &mut G) -> String {
    match g.weighted(&[8, 3, 1, 1, 1]) {
        0 => {
            let n = g.usize(1, 10);
            String::from_utf8(ascii(g, n)).unwrap()
        }
        4 => {
            let mut s = g.source_text();
            // those mean something
            if s == "None" || SPECIAL.contains(&s.as_str()) {
                s.push('_');
            }
            s
        }
        1 => (*g.pick(&[
            "none", "None ", "NONE", "Non", "Nonee", "", "TeamSize", "Goals", "PlayerStats", "IntProperty",
            "StructProperty", "NumFrame", "é", "\u{feff}x", "a\u{0}b", "日本語", "😀", "ÿ",
        ]))
        .to_string(),
        2 => {
            let n = g.usize(0, 8);
            (0..n)
                .map(|_| {
                    let r = match g.below(4) {
                        0 => 0x80,
                        1 => 0x800,
                        2 => 0x1_0000,
                        _ => 0x11_0000,
                    };
                    char::from_u32(g.below(r) as u32).unwrap_or('x')
                })
                .collect()
        }
        _ => {
            let n = *g.pick(&[50usize, 126, 127, 128, 254, 255, 256, 300, 300, 1025, 10_001]);
            // the long ones are rare
            let n = if n > 1000 && g.below(8) != 0 { 256 } else { n };
            "k".repeat(n)
        }
    }
}

/// A name where even the words with a meaning elsewhere mean nothing.
pub fn value_name(g: &mut G) -> String {
    if g.chance(1, 12) {
        return (*g.pick(&["None", "NumFrames", "MaxChannels", "Lan", "ByteProperty", "ArrayProperty"])).to_string();
    }
    name(g)
}

/// Writes a length prefixed UTF-8 string, with the variations a reader has to
/// accept: any final byte, and size 0 for the empty string.
pub fn put_name(g: &mut G, out: &mut Vec<u8>, s: &str) {
    if s.is_empty() && g.bool() {
        put_i32(out, 0);
        return;
    }
    put_i32(out, s.len() as i32 + 1);
    out.extend_from_slice(s.as_bytes());
    out.push(if g.chance(1, 12) { g.below(256) as u8 } else { 0 });
}

// ---------------------------------------------------------------- version

pub const GATES: &[(i32, i32, i32)] = &[
    (868, 20, 0),
    (868, 12, 0),
    (868, 14, 0),
    (868, 18, 0),
    (868, 23, 8),
    (868, 24, 10),
    (866, 18, 0),
    (868, 22, 7),
    (868, 20, 1),
    (868, 32, 10),
];

pub fn version(g: &mut G) -> Ver {
    let v = match g.weighted(&[6, 6, 3, 1]) {
        0 => {
            let (a, b, c) = *g.pick(&[
                (868, 32, 10),
                (868, 20, 2),
                (868, 24, 10),
                (868, 22, 7),
                (868, 17, 0),
                (867, 12, 0),
                (865, 0, 0),
                (0, 0, 0),
                (868, 12, 0),
                (868, 14, 0),
                (868, 32, 11),
            ]);
            ver(a, b, c)
        }
        1 => {
            let &(a, b, c) = g.pick(GATES);
            let d = g.range(-1, 1) as i32;
            match g.below(3) {
                0 => ver(a, b, c + d),
                1 => ver(a, b + d, c),
                _ => ver(a + d, b, c),
            }
        }
        2 => ver(
            *g.pick(&[868, 867, 866, 865, 869, 1, 0]),
            g.range(0, 34) as i32,
            g.range(0, 12) as i32,
        ),
        _ => ver(g.i32(), g.i32(), g.i32()),
    };
    v.norm()
}

// ----------------------------------------------------------------- header

#[derive(Clone, Debug)]
pub struct PropW {
    pub wire: Vec<u8>,
    pub exp: Option<(String, HeaderProp)>,
}

#[derive(Default, Clone, Debug)]
pub struct PropStats {
    pub nodes: u32,
    pub depth: u32,
    pub skipped: u32,
    pub dup: bool,
    pub many: bool,
    pub kinds: u32,
    pub wrong_size: bool,
    pub empty: bool,
}

fn hprop(g: &mut G, quirks: bool, depth: u32, st: &mut PropStats, v: &mut Vec<u8>) -> (&'static str, Option<HeaderProp>) {
    let w: &[u64] = if depth >= 5 || st.nodes > 60 { &[3, 3, 2, 2, 3, 2, 2, 0, 0] } else { &[3, 3, 2, 2, 3, 2, 2, 2, 2] };
    let k = g.weighted(w);
    st.kinds |= 1 << k;
    match k {
        0 => {
            let x = g.i32();
            put_i32(v, x);
            ("IntProperty", Some(HeaderProp::Int(x)))
        }
        1 => {
            let t = text(g);
            t.put(v);
            ("StrProperty", Some(HeaderProp::Str(t.value)))
        }
        2 => {
            let t = text(g);
            t.put(v);
            ("NameProperty", Some(HeaderProp::Name(t.value)))
        }
        3 => {
            let x = g.f32(true);
            put_u32(v, x.to_bits());
            ("FloatProperty", Some(HeaderProp::Float(x)))
        }
        4 => {
            let b = *g.pick(&[1u8, 0, 2, 0xff, 0x81, 1]);
            v.push(b);
            if quirks {
                let rest = g.bytes(3);
                v.extend_from_slice(&rest);
            }
            ("BoolProperty", Some(HeaderProp::Bool(b == 1)))
        }
        5 => {
            let x = g.word64();
            v.extend_from_slice(&x.to_le_bytes());
            ("QWordProperty", Some(HeaderProp::QWord(x)))
        }
        6 => {
            if quirks {
                let t = text(g);
                t.put(v);
                ("ByteProperty", Some(HeaderProp::Byte { kind: t.value, value: None }))
            } else if g.chance(1, 4) {
                put_name(g, v, "None");
                v.push(g.below(256) as u8);
                st.skipped += 1;
                ("ByteProperty", None)
            } else {
                let kind = if g.bool() { "OnlinePlatform".to_string() } else { name(g) };
                let value = if g.bool() { "OnlinePlatform_Steam".to_string() } else { value_name(g) };
                put_name(g, v, &kind);
                put_name(g, v, &value);
                ("ByteProperty", Some(HeaderProp::Byte { kind, value: Some(value) }))
            }
        }
        7 => {
            let n = *g.pick(&[1usize, 0, 2, 3, 5]);
            put_i32(v, n as i32);
            st.empty |= n == 0;
            let mut a = Vec::new();
            for _ in 0..n {
                a.push(props(g, quirks, depth + 1, st, v));
            }
            ("ArrayProperty", Some(HeaderProp::Array(a)))
        }
        _ => {
            let name = value_name(g);
            put_name(g, v, &name);
            let fields = props(g, quirks, depth + 1, st, v);
            ("StructProperty", Some(HeaderProp::Struct { name, fields }))
        }
    }
}

pub fn prop_entry(g: &mut G, key: &str, quirks: bool, depth: u32, st: &mut PropStats) -> PropW {
    st.nodes += 1;
    st.depth = st.depth.max(depth);
    let mut body = Vec::new();
    let (mut kind, mut val) = hprop(g, quirks, depth, st, &mut body);
    if depth == 0 && g.chance(1, 60) {
        // a long chain of structs and arrays with one element each
        for i in 0..g.usize(1, 57) as u32 {
            st.depth = st.depth.max(i + 5);
            let key = if g.chance(1, 4) { name(g) } else { "k".to_string() };
            let mut dict = Vec::new();
            put_name(g, &mut dict, &key);
            put_name(g, &mut dict, kind);
            put_u32(&mut dict, body.len() as u32);
            put_u32(&mut dict, 0);
            dict.append(&mut body);
            put_name(g, &mut dict, "None");
            let fields: Vec<_> = val.take().map(|v| (key, v)).into_iter().collect();
            if g.bool() {
                put_name(g, &mut body, "S");
                kind = "StructProperty";
                val = Some(HeaderProp::Struct { name: "S".into(), fields });
            } else {
                put_i32(&mut body, 1);
                kind = "ArrayProperty";
                val = Some(HeaderProp::Array(vec![fields]));
            }
            body.append(&mut dict);
        }
    }
    let mut wire = Vec::new();
    put_name(g, &mut wire, key);
    put_name(g, &mut wire, kind);
    match g.below(4) {
        0 => {
            put_u32(&mut wire, g.word());
            put_u32(&mut wire, g.word());
            st.wrong_size = true;
        }
        _ => {
            put_u32(&mut wire, body.len() as u32);
            put_u32(&mut wire, 0);
        }
    }
    wire.extend_from_slice(&body);
    PropW { wire, exp: val.map(|v| (key.to_string(), v)) }
}

/// A property dictionary, terminator included.
pub fn props(g: &mut G, quirks: bool, depth: u32, st: &mut PropStats, out: &mut Vec<u8>) -> Vec<(String, HeaderProp)> {
    let n = if st.nodes > 60 { 0 } else { g.usize(0, if depth == 0 { 8 } else { 3 }) };
    let mut exp = Vec::new();
    let mut last = String::new();
    for i in 0..n {
        let key = if i > 0 && g.chance(1, 8) {
            st.dup = true;
            last.clone()
        } else {
            name(g)
        };
        let p = prop_entry(g, &key, quirks, depth, st);
        out.extend_from_slice(&p.wire);
        exp.extend(p.exp);
        last = key;
    }
    if g.chance(1, if depth == 0 { 40 } else { 120 }) {
        // many of them in one map
        let n = *g.pick(&[33usize, 65, 130, 257]) + g.usize(0, 3);
        for i in 0..n {
            let key = format!("{}{}", *g.pick(&["a", "Key", "x_", "9"]), i.wrapping_mul(37) % 100);
            let v = match g.below(3) {
                0 => HeaderProp::Int(g.i32()),
                1 => HeaderProp::QWord(u64::from(g.word()) << 17 | 5),
                _ => HeaderProp::Str(i.to_string()),
            };
            let p = simple_prop(&key, &v);
            out.extend_from_slice(&p.wire);
            exp.extend(p.exp);
        }
        st.many = true;
    }
    put_name(g, out, "None");
    exp
}

pub fn simple_prop(key: &str, v: &HeaderProp) -> PropW {
    let mut wire = Vec::new();
    put_str(&mut wire, key);
    let mut b = Vec::new();
    let kind = match v {
        HeaderProp::Int(x) => {
            put_i32(&mut b, *x);
            "IntProperty"
        }
        HeaderProp::Str(s) => {
            Text::plain(s).put(&mut b);
            "StrProperty"
        }
        HeaderProp::Name(s) => {
            Text::plain(s).put(&mut b);
            "NameProperty"
        }
        HeaderProp::QWord(x) => {
            b.extend_from_slice(&x.to_le_bytes());
            "QWordProperty"
        }
        HeaderProp::Float(x) => {
            put_u32(&mut b, x.to_bits());
            "FloatProperty"
        }
        HeaderProp::Array(a) => {
            put_i32(&mut b, a.len() as i32);
            for fields in a {
                for (k, v) in fields {
                    b.extend_from_slice(&simple_prop(k, v).wire);
                }
                put_str(&mut b, "None");
            }
            "ArrayProperty"
        }
        x => unreachable!("{x:?}"),
    };
    put_str(&mut wire, kind);
    put_u32(&mut wire, b.len() as u32);
    put_u32(&mut wire, 0);
    wire.extend_from_slice(&b);
    PropW { wire, exp: Some((key.to_string(), v.clone())) }
}

// ------------------------------------------------------------- whole files

#[derive(Clone, Debug)]
pub struct Spec {
    pub ver: Ver,
    pub game_type: Text,
    pub props: Vec<PropW>,
    pub levels: Vec<Text>,
    pub keyframes: Vec<(u32, i32, i32)>,
    pub net: Vec<u8>,
    pub debug: Vec<(i32, Text, Text)>,
    pub ticks: Vec<(Text, i32)>,
    pub packages: Vec<Text>,
    pub objects: Vec<Text>,
    pub names: Vec<Text>,
    pub classes: Vec<(String, i32)>,
    pub cache: Vec<ClassNetCache>,
    pub trailing: Vec<u8>,
}

impl Spec {
    pub fn new(ver: Ver) -> Spec {
        Spec {
            ver: ver.norm(),
            game_type: Text::plain("TAGame.Replay_Soccar_TA"),
            props: vec![],
            levels: vec![],
            keyframes: vec![],
            net: vec![],
            debug: vec![],
            ticks: vec![],
            packages: vec![],
            objects: vec![],
            names: vec![],
            classes: vec![],
            cache: vec![],
            trailing: vec![],
        }
    }
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub header: std::ops::Range<usize>,
    pub body: std::ops::Range<usize>,
    pub net: std::ops::Range<usize>,
    /// What a parse must return, apart from the network frames.
    pub exp: Replay,
}

fn put_list<T>(out: &mut Vec<u8>, v: &[T], mut f: impl FnMut(&mut Vec<u8>, &T)) {
    put_i32(out, v.len() as i32);
    for x in v {
        f(out, x);
    }
}

pub fn put_cache(out: &mut Vec<u8>, c: &ClassNetCache) {
    put_i32(out, c.object_ind);
    put_i32(out, c.parent_id);
    put_i32(out, c.cache_id);
    put_list(out, &c.properties, |o, p| {
        put_i32(o, p.object_ind);
        put_i32(o, p.stream_id);
    });
}

impl Spec {
    pub fn header_bytes(&self) -> Vec<u8> {
        let mut h = Vec::new();
        put_i32(&mut h, self.ver.major);
        put_i32(&mut h, self.ver.minor);
        if self.ver.has_net() {
            put_i32(&mut h, self.ver.net);
        }
        self.game_type.put(&mut h);
        for p in &self.props {
            h.extend_from_slice(&p.wire);
        }
        put_str(&mut h, "None");
        h
    }

    /// Body bytes and the range of the network data in them.
    pub fn body_bytes(&self) -> (Vec<u8>, std::ops::Range<usize>) {
        let mut b = Vec::new();
        put_list(&mut b, &self.levels, |o, t| t.put(o));
        put_list(&mut b, &self.keyframes, |o, k| {
            put_u32(o, k.0);
            put_i32(o, k.1);
            put_i32(o, k.2);
        });
        put_i32(&mut b, self.net.len() as i32);
        let at = b.len();
        b.extend_from_slice(&self.net);
        let net = at..b.len();
        put_list(&mut b, &self.debug, |o, d| {
            put_i32(o, d.0);
            d.1.put(o);
            d.2.put(o);
        });
        put_list(&mut b, &self.ticks, |o, t| {
            t.0.put(o);
            put_i32(o, t.1);
        });
        put_list(&mut b, &self.packages, |o, t| t.put(o));
        put_list(&mut b, &self.objects, |o, t| t.put(o));
        put_list(&mut b, &self.names, |o, t| t.put(o));
        put_list(&mut b, &self.classes, |o, c| {
            put_str(o, &c.0);
            put_i32(o, c.1);
        });
        put_list(&mut b, &self.cache, put_cache);
        (b, net)
    }

    pub fn build(&self) -> Built {
        let h = self.header_bytes();
        let (b, net) = self.body_bytes();
        let mut bytes = Vec::with_capacity(h.len() + b.len() + 16 + self.trailing.len());
        put_i32(&mut bytes, h.len() as i32);
        put_u32(&mut bytes, crc_ref(&h));
        let header = bytes.len()..bytes.len() + h.len();
        bytes.extend_from_slice(&h);
        put_i32(&mut bytes, b.len() as i32);
        put_u32(&mut bytes, crc_ref(&b));
        let body = bytes.len()..bytes.len() + b.len();
        bytes.extend_from_slice(&b);
        bytes.extend_from_slice(&self.trailing);
        let vals = |v: &[Text]| v.iter().map(|t| t.value.clone()).collect::<Vec<_>>();
        let exp = Replay {
            header_size: h.len() as i32,
            header_crc: crc_ref(&h),
            major_version: self.ver.major,
            minor_version: self.ver.minor,
            net_version: self.ver.net_opt(),
            game_type: self.game_type.value.clone(),
            properties: self.props.iter().filter_map(|p| p.exp.clone()).collect(),
            content_size: b.len() as i32,
            content_crc: crc_ref(&b),
            network_frames: None,
            levels: vals(&self.levels),
            keyframes: self
                .keyframes
                .iter()
                .map(|k| KeyFrame { time: f32::from_bits(k.0), frame: k.1, position: k.2 })
                .collect(),
            debug_info: self
                .debug
                .iter()
                .map(|d| DebugInfo { frame: d.0, user: d.1.value.clone(), text: d.2.value.clone() })
                .collect(),
            tick_marks: self.ticks.iter().map(|t| TickMark { description: t.0.value.clone(), frame: t.1 }).collect(),
            packages: vals(&self.packages),
            objects: vals(&self.objects),
            names: vals(&self.names),
            class_indices: self.classes.iter().map(|c| ClassIndex { class: c.0.clone(), index: c.1 }).collect(),
            net_cache: self.cache.clone(),
        };
        let net = body.start + net.start..body.start + net.end;
        Built { bytes, header, body, net, exp }
    }
}

/// Replaces both CRCs with the right ones for the declared section sizes.
/// False when the sizes do not fit the data.
pub fn fix_crcs(d: &mut [u8], header_end: usize) -> bool {
    let rd = |d: &[u8], at: usize| -> Option<usize> {
        let b = d.get(at..at + 4)?;
        let v = i32::from_le_bytes(b.try_into().unwrap());
        usize::try_from(v).ok()
    };
    let Some(hs) = rd(d, 0) else { return false };
    let Some(h) = d.get(8..8usize.saturating_add(hs)) else { return false };
    let c = crc_ref(h);
    d[4..8].copy_from_slice(&c.to_le_bytes());
    let at = header_end;
    let Some(bs) = rd(d, at) else { return false };
    let Some(b) = d.get(at + 8..(at + 8).saturating_add(bs)) else { return false };
    let c = crc_ref(b);
    d[at + 4..at + 8].copy_from_slice(&c.to_le_bytes());
    true
}

pub fn texts(g: &mut G, max: usize) -> Vec<Text> {
    let n = g.usize(0, max);
    if n > 1 && g.chance(1, 12) {
        // of one length, and the same but for a character or two
        let l = *g.pick(&[1usize, 7, 8, 15, 16, 31, 40, 64, 65, 100, 130, 170, 255, 260, 400, 1100]);
        let base = ascii(g, l);
        let wide = g.chance(1, 4);
        return (0..n)
            .map(|_| {
                let mut b = base.clone();
                for _ in 0..g.usize(0, 2) {
                    let at = *g.pick(&[0, l / 2, l - 1, l * 3 / 4]);
                    b[at] = 33 + g.below(94) as u8;
                }
                if wide {
                    Text::utf16(&b.iter().map(|x| u16::from(*x)).collect::<Vec<_>>(), 0)
                } else {
                    Text::latin(&b, 0)
                }
            })
            .collect();
    }
    (0..n).map(|_| text(g)).collect()
}

/// Top level keys the decoder gives a meaning to.
pub const SPECIAL: &[&str] = &["NumFrames", "MaxChannels", "MatchType", "BuildVersion"];

/// A file with arbitrary contents but without decodable network data
/// (`NumFrames` absent).
pub fn any_spec(g: &mut G) -> (Spec, PropStats) {
    let v = version(g);
    let mut s = Spec::new(v);
    if g.chance(1, 3) {
        s.game_type = text(g);
    }
    let mut st = PropStats::default();
    let n = g.usize(0, 6);
    for _ in 0..n {
        let k = name(g);
        s.props.push(prop_entry(g, &k, s.ver.quirks(), 0, &mut st));
    }
    fill_body(g, &mut s);
    (s, st)
}

pub fn fill_body(g: &mut G, s: &mut Spec) {
    s.levels = texts(g, 3);
    s.keyframes = (0..g.usize(0, 4)).map(|_| (g.word(), g.i32(), g.i32())).collect();
    s.debug = (0..g.usize(0, 2)).map(|_| (g.i32(), text(g), text(g))).collect();
    s.ticks = (0..g.usize(0, 3)).map(|_| (text(g), g.i32())).collect();
    s.packages = texts(g, 3);
    s.names = texts(g, 3);
    s.classes = (0..g.usize(0, 3)).map(|_| (name(g), g.i32())).collect();
}

/// Several longer lists at once, of up to `most` elements and some `bytes` bytes
/// together. The contents come from one draw per list.
pub fn crowd(g: &mut G, s: &mut Spec, most: usize, bytes: usize) {
    const SIZES: [usize; 14] = [0, 1, 5, 13, 17, 33, 40, 70, 129, 300, 1_025, 4_100, 12_000, 25_000];
    let mut left = bytes;
    let mut plan = [(0usize, 0u64, 0u64); 11];
    for p in &mut plan {
        let n = *g.pick(&SIZES);
        *p = (if n > most { n % (most + 1) } else { n }, *g.pick(&[4u64, 0, 1, 12, 40, 200]), g.below(1 << 40));
    }
    // who comes first gets most of the room
    let mut order: Vec<usize> = (0..plan.len()).collect();
    shuffle(g, &mut order);
    for i in order {
        let each = 12 + plan[i].1 as usize;
        plan[i].0 = plan[i].0.min(left / each);
        left -= plan[i].0 * each;
    }
    let words = |(n, len, seed): (usize, u64, u64)| {
        let mut r = Rng::new(seed);
        (0..n)
            .map(|_| {
                let l = if len == 0 { 0 } else { r.next() % (len + 1) };
                match r.next() % 16 {
                    0 if l == 0 => Text::empty(),
                    1 => Text::utf16(&(0..l).map(|_| (r.next() % 0xd000) as u16).collect::<Vec<_>>(), 0),
                    2 => Text::latin(&(0..l).map(|_| (r.next() % 255 + 1) as u8).collect::<Vec<_>>(), 0),
                    3 => Text::plain(ATTRS[(r.next() % ATTRS.len() as u64) as usize].0),
                    4 => Text::plain(PARENTS[(r.next() % PARENTS.len() as u64) as usize].0),
                    _ => Text::latin(&(0..l).map(|_| (r.next() % 94 + 33) as u8).collect::<Vec<_>>(), 0),
                }
            })
            .collect::<Vec<_>>()
    };
    let nums = |seed: u64| {
        let mut r = Rng::new(seed ^ 1);
        move || match r.next() % 4 {
            0 => r.next() as i32,
            1 => (r.next() % 300) as i32 - 2,
            _ => (r.next() % 30_000) as i32,
        }
    };
    s.levels = words(plan[0]);
    let mut x = nums(plan[1].2);
    s.keyframes = (0..plan[1].0).map(|_| (x() as u32, x(), x())).collect();
    let mut x = nums(plan[2].2);
    let users = words((plan[2].0, plan[2].1.min(10), plan[2].2 ^ 7));
    s.debug = words(plan[2]).into_iter().zip(users).map(|(t, u)| (x(), u, t)).collect();
    let mut x = nums(plan[3].2);
    s.ticks = words(plan[3]).into_iter().map(|t| (t, x())).collect();
    s.packages = words(plan[4]);
    s.objects = words(plan[5]);
    s.names = words(plan[6]);
    let mut x = nums(plan[7].2);
    s.classes = words(plan[7]).into_iter().map(|t| (t.value, x())).collect();
    let mut x = nums(plan[8].2);
    s.cache = (0..plan[8].0)
        .map(|i| ClassNetCache {
            object_ind: x(),
            parent_id: x(),
            cache_id: x(),
            properties: (0..if i % 7 == 0 { plan[8].1.min(12) } else { 0 }).map(|_| CacheProp { object_ind: x(), stream_id: x() }).collect(),
        })
        .collect();
    if plan[9].0 > 0 && s.cache.len() < 25_000 {
        let properties = (0..plan[9].0).map(|_| CacheProp { object_ind: x(), stream_id: x() }).collect();
        s.cache.push(ClassNetCache { object_ind: x(), parent_id: x(), cache_id: x(), properties });
    }
    for (i, t) in words(plan[10]).into_iter().enumerate() {
        let v = match i % 3 {
            0 => HeaderProp::Int(x()),
            1 => HeaderProp::QWord(x() as u64),
            _ => HeaderProp::Float(x() as f32),
        };
        let key = if t.value == "None" { "none" } else { &t.value };
        s.props.push(simple_prop(&format!("{key}{}", i % 10), &v));
    }
}

pub fn any_cache(g: &mut G, max: usize) -> Vec<ClassNetCache> {
    (0..g.usize(0, max))
        .map(|_| ClassNetCache {
            object_ind: g.i32(),
            parent_id: g.i32(),
            cache_id: g.i32(),
            properties: (0..g.usize(0, 4)).map(|_| CacheProp { object_ind: g.i32(), stream_id: g.i32() }).collect(),
        })
        .collect()
}

// ------------------------------------------------------------------- world

/// Everything outside the network bytes that decides how they decode.
pub struct World {
    pub ver: Ver,
    pub objects: Vec<String>,
    pub cache: Vec<ClassNetCache>,
    pub match_type: Option<HeaderProp>,
    pub build: Option<HeaderProp>,
    pub channels: Option<HeaderProp>,
    pub lan: bool,
    pub rl223: bool,
    pub max_channels: u32,
    pub res: Resolver,
    /// objects with a cache
    pub actors: Vec<i32>,
    /// candidate actor ids
    pub ids: Vec<i32>,
    /// properties before the meaningful ones, which must not be taken for them
    pub before: Vec<PropW>,
    /// later properties of the same name, which must not count
    pub after: Vec<(&'static str, HeaderProp)>,
}

pub struct WorldOpts {
    pub min_attrs: usize,
    pub max_attrs: usize,
    pub actors: usize,
    pub kinds: Option<Kind>,
    pub unknown: bool,
    pub dup: bool,
    pub ver: Option<Ver>,
    /// give every actor class the attributes directly
    pub flat: bool,
}

impl Default for WorldOpts {
    fn default() -> Self {
        WorldOpts { min_attrs: 1, max_attrs: 8, actors: 4, kinds: None, unknown: true, dup: true, ver: None, flat: false }
    }
}

pub const PRODUCTS: &[&str] = &[
    "TAGame.ProductAttribute_UserColor_TA",
    "TAGame.ProductAttribute_Painted_TA",
    "TAGame.ProductAttribute_TitleID_TA",
    "TAGame.ProductAttribute_SpecialEdition_TA",
    "TAGame.ProductAttribute_TeamEdition_TA",
];

/// A copy of `d` in `buf` at an address that is `at` beyond a page boundary; other
/// bytes lie around it.
pub fn placed<'a>(buf: &'a mut Vec<u8>, d: &[u8], at: usize) -> &'a [u8] {
    buf.clear();
    buf.resize(d.len() + 2 * 4096 + 64, 0x5a);
    let base = buf.as_ptr() as usize;
    let from = (4096 - base % 4096) % 4096 + at % 4096;
    buf[from..from + d.len()].copy_from_slice(d);
    &buf[from..from + d.len()]
}

/// What may lie behind a replay's body: anything, and in particular what looks like
/// more of the same.
pub fn behind(g: &mut G, file: &[u8], header_end: usize) -> Vec<u8> {
    let n = *g.pick(&[1usize, 4, 8, 100, 3000]);
    match g.below(6) {
        0 => file.to_vec(),
        1 => file[..n.min(file.len())].to_vec(),
        2 => file[header_end.min(file.len())..].to_vec(),
        3 => vec![0; n],
        _ => g.bytes(n),
    }
}

pub fn shuffle<T>(g: &mut G, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // draw 0 keeps the order
        let j = i - g.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

pub fn level_instance(g: &mut G) -> String {
    let stadium = *g.pick(&["", "stadium_p.", "Stadium_Foggy_P.", "trainstation_dawn_p.", "a.b.", "."]);
    let class = *g.pick(LEVEL_ACTORS);
    let suffix = *g.pick(&["", "_0", "_17", "_30", "x", ".y"]);
    if g.chance(1, 12) {
        // long, and not ASCII
        let (c, n) = (*g.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}"]), g.usize(1, 130));
        return format!("{stadium}{LEVEL}{class}{suffix}{}", c.repeat(n));
    }
    format!("{stadium}{LEVEL}{class}{suffix}")
}

pub fn world(g: &mut G, o: &WorldOpts) -> World {
    let ver = match o.ver {
        Some(v) => v.norm(),
        None => version(g),
    };
    let mut objects: Vec<String> = Vec::new();
    let push = |v: &mut Vec<String>, s: &str| {
        if !v.iter().any(|x| x == s) {
            v.push(s.to_string());
        }
    };
    let n = g.usize(1, o.actors);
    for _ in 0..n {
        let nm = match g.weighted(&[8, 4, 3, 1]) {
            0 => PARENTS[g.below(PARENTS.len() as u64) as usize].0.to_string(),
            1 => (*g.pick(&[
                "Archetypes.Car.Car_Default",
                "Archetypes.Ball.Ball_Default",
                "TAGame.Default__PRI_TA",
                "TAGame.CrowdActor_TA",
                "TAGame.Default__CameraSettingsActor_TA",
                "TAGame.RBActor_TA",
                "Engine.Actor",
                "Engine.ReplicationInfo",
                "Archetypes.GameEvent.GameEvent_Soccar",
            ]))
            .to_string(),
            2 => level_instance(g),
            _ => (*g.pick(&["Foo.Bar_TA", "Core.Object", "x", "", "TAGame.Unknown_TA"])).to_string(),
        };
        let keep = if o.flat { 16 } else { 12 };
        let mut cur = nm.clone();
        push(&mut objects, &nm);
        while let Some(p) = parent_of(&cur) {
            cur = p.to_string();
            if g.below(16) < keep {
                push(&mut objects, &cur);
            }
        }
    }
    if g.chance(1, 6) {
        for (s, _) in SPAWNS {
            if g.bool() {
                push(&mut objects, s);
            }
        }
    }
    let na = g.usize(o.min_attrs, o.max_attrs);
    let mut attr_names: Vec<String> = Vec::new();
    for i in 0..na {
        let s = match o.kinds {
            Some(k) if i == 0 || g.bool() => (*g.pick(names_of(k))).to_string(),
            _ if o.unknown && g.chance(1, 14) => {
                match g.below(6) {
                    0 => format!("TAGame.Foo_TA:{}", "\u{20ac}\u{e9}".repeat(g.usize(1, 100))),
                    i => ["TAGame.Foo_TA:Bar", "", "Engine.Actor:bHiddenn", "engine.actor:bhidden", "TAGame.Car_TA"][i as usize - 1].to_string(),
                }
            }
            _ => {
                let k = *g.pick(KINDS);
                (*g.pick(names_of(k))).to_string()
            }
        };
        if !attr_names.contains(&s) {
            attr_names.push(s.clone());
        }
        push(&mut objects, &s);
    }
    // Product classes; the catalogue's first object keeps index 0 unless they
    // are there (see DESIGN.md on product ids)
    for p in PRODUCTS {
        if g.chance(2, 3) {
            push(&mut objects, p);
        }
    }
    if g.bool() {
        push(&mut objects, "Core.Object");
    }
    if g.chance(1, 400) {
        // so that object ids need more than a byte, or than twelve bits
        let n = *g.pick(&[250usize, 300, 1030, 5000]);
        objects.extend((0..n).map(|i| format!("Fill.Class_TA:p{i}")));
    }
    shuffle(g, &mut objects);
    if o.dup && g.chance(1, 4) {
        // once more, twice, or several names
        let mut d = objects[g.below(objects.len() as u64) as usize].clone();
        for i in 0..*g.pick(&[1usize, 1, 2, 3, 4]) {
            if i > 0 && g.chance(1, 3) {
                d = objects[g.below(objects.len() as u64) as usize].clone();
            }
            let at = g.usize(0, objects.len());
            objects.insert(at, d.clone());
        }
    }
    let index = |s: &str, objects: &[String]| objects.iter().position(|x| x == s).map(|i| i as i32);

    // stream ids
    let style = g.weighted(&[6, 3, 3, 2, 1]);
    let attr_ids: Vec<i32> = attr_names.iter().filter_map(|s| index(s, &objects)).collect();
    let mut next = g.usize(0, 3) as i32;
    let mut stream = |g: &mut G| -> i32 {
        match style {
            0 => {
                next += g.usize(0, 2) as i32;
                next
            }
            1 => g.range(60, 68) as i32,
            2 => g.range(0, 70) as i32,
            3 => {
                let k = g.usize(1, 13);
                ((1i64 << k) + g.range(-2, 2)).max(0) as i32
            }
            _ => *g.pick(&[0, 1, 63, 64, 255, 256, 65_535, 65_536, 1 << 20, (1 << 30) - 1, 1 << 30, i32::MAX - 1, i32::MAX, -1, -5]),
        }
    };
    let mut cache = Vec::new();
    let holders: Vec<i32> = objects
        .iter()
        .enumerate()
        .filter(|(_, s)| !s.contains(':') || s.contains("PersistentLevel"))
        .map(|(i, _)| i as i32)
        .collect();
    for &h in &holders {
        let times = if o.flat { 1 } else { *g.pick(&[1usize, 1, 0, 1, 2, 1, 0, 1]) };
        for _ in 0..times {
            let mut properties = Vec::new();
            for &a in &attr_ids {
                if o.flat || g.chance(1, 2) {
                    properties.push(CacheProp { object_ind: a, stream_id: stream(g) });
                }
            }
            cache.push(ClassNetCache { object_ind: h, parent_id: g.range(0, 40) as i32, cache_id: g.range(0, 40) as i32, properties });
        }
    }
    if g.chance(1, 10) {
        // entries of objects that are not there, but look like some that are
        for _ in 0..g.usize(1, 3) {
            let n = objects.len() as i32;
            let k = g.usize(0, n as usize - 1) as i32;
            let object_ind = match g.below(7) {
                0 => -k,
                1 => -1 - k,
                2 => k | 1 << (8 + g.below(24)),
                3 => n + k,
                4 => !k,
                5 => k.wrapping_sub(n),
                _ => g.i32(),
            };
            if (0..n).contains(&object_ind) {
                continue;
            }
            let mut properties = Vec::new();
            for &a in &attr_ids {
                if g.bool() {
                    properties.push(CacheProp { object_ind: a, stream_id: stream(g) });
                }
            }
            cache.push(ClassNetCache { object_ind, parent_id: 0, cache_id: 0, properties });
        }
    }
    if !o.flat {
        shuffle(g, &mut cache);
    }

    let match_type = match g.below(8) {
        0 | 1 => Some(HeaderProp::Str("Online".into())),
        2 | 3 => Some(HeaderProp::Str("Lan".into())),
        4 => Some(HeaderProp::Name("Lan".into())),
        5 => Some(HeaderProp::Name((*g.pick(&["Online", "Offline", "lan", "Lan ", "LAN", "", "Lan2", "La"])).into())),
        6 => Some(HeaderProp::Int(3)),
        _ => None,
    };
    let build = match g.below(8) {
        0 => None,
        1 | 2 => Some(HeaderProp::Str("221120.42953.406184".into())),
        3 => Some(HeaderProp::Str((*g.pick(&["221120.42953.406183", "221120.42953.40618", "160418.33136", "1", "", "0"])).into())),
        4 => Some(HeaderProp::Name((*g.pick(&["221120.42953.406185", "221120.42953.4061840", "230101.1", "3", "z"])).into())),
        5 => Some(HeaderProp::Int(230_101)),
        _ => Some(HeaderProp::Str("240101.12345.678901".into())),
    };
    let channels = match g.below(6) {
        0 | 1 => Some(HeaderProp::Int(1023)),
        2 => Some(HeaderProp::Int(*g.pick(&[1, 2, 3, 4, 5, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 1024, 1025, 2047, 2048]))),
        3 => Some(HeaderProp::Int(*g.pick(&[4096, 65_535, 65_536, 100_000, 0, i32::MAX]))),
        4 => Some(HeaderProp::Str("1023".into())),
        _ => None,
    };
    let text_of = |p: &Option<HeaderProp>| match p {
        Some(HeaderProp::Str(s)) | Some(HeaderProp::Name(s)) => Some(s.clone()),
        _ => None,
    };
    let lan = text_of(&match_type).as_deref() == Some("Lan");
    let rl223 = text_of(&build).map(|s| s.as_bytes() >= b"221120.42953.406184".as_slice()).unwrap_or(false);
    let max_channels = match channels {
        Some(HeaderProp::Int(x)) => x as u32,
        _ => 1023,
    };
    let mut w = finish_world(ver, objects, cache, match_type, build, channels, lan, rl223, max_channels);
    decoys(g, &mut w);
    w
}

/// A value some meaningful property might have.
fn special_value(g: &mut G, k: &str) -> HeaderProp {
    match (k, g.below(4)) {
        ("MatchType", 0..=2) => HeaderProp::Name((*g.pick(&["Lan", "Online"])).into()),
        ("BuildVersion", 0..=2) => HeaderProp::Str((*g.pick(&["221120.42953.406184", "1", "240101.1.1"])).into()),
        ("MaxChannels", 0..=2) => HeaderProp::Int(*g.pick(&[63, 1023, 2047, 1])),
        (_, 0..=2) => HeaderProp::Int(*g.pick(&[0, 1, -1, 2, 1_000_000])),
        (_, 3) => HeaderProp::Int(3),
        _ => HeaderProp::Str("".into()),
    }
}

/// Properties that look like the ones that decide how network data decodes.
fn decoys(g: &mut G, w: &mut World) {
    if g.chance(1, 6) {
        let k = *g.pick(SPECIAL);
        let v = special_value(g, k);
        w.after.push((k, v));
    }
    if g.chance(1, 8) {
        let k = *g.pick(SPECIAL);
        let v = special_value(g, k);
        let p = match g.below(3) {
            0 => {
                let key = match g.below(4) {
                    0 => k.to_lowercase(),
                    1 => format!("{k} "),
                    2 => format!("{k}2"),
                    _ => k[..k.len() - 1].to_string(),
                };
                simple_prop(&key, &v)
            }
            1 => {
                let mut b = Vec::new();
                put_str(&mut b, "Settings");
                b.extend_from_slice(&simple_prop(k, &v).wire);
                put_str(&mut b, "None");
                raw_prop("a", "StructProperty", &b, HeaderProp::Struct { name: "Settings".into(), fields: vec![(k.into(), v)] })
            }
            _ => {
                let mut b = Vec::new();
                put_i32(&mut b, 1);
                b.extend_from_slice(&simple_prop(k, &v).wire);
                put_str(&mut b, "None");
                raw_prop("Goals", "ArrayProperty", &b, HeaderProp::Array(vec![vec![(k.into(), v)]]))
            }
        };
        w.before.push(p);
    }
}

fn raw_prop(key: &str, kind: &str, payload: &[u8], v: HeaderProp) -> PropW {
    let mut wire = Vec::new();
    put_str(&mut wire, key);
    put_str(&mut wire, kind);
    put_u32(&mut wire, payload.len() as u32);
    put_u32(&mut wire, 0);
    wire.extend_from_slice(payload);
    PropW { wire, exp: Some((key.to_string(), v)) }
}

pub fn net_entries(cache: &[ClassNetCache]) -> Vec<NetEntry> {
    cache
        .iter()
        .map(|e| NetEntry {
            object_ind: e.object_ind,
            props: e.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect(),
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
pub fn finish_world(
    ver: Ver,
    objects: Vec<String>,
    cache: Vec<ClassNetCache>,
    match_type: Option<HeaderProp>,
    build: Option<HeaderProp>,
    channels: Option<HeaderProp>,
    lan: bool,
    rl223: bool,
    max_channels: u32,
) -> World {
    let res = Resolver::new(&objects, &net_entries(&cache)).expect("generated cache refers to listed objects");
    let actors = (0..objects.len()).filter(|&i| res.caches[i].is_some()).map(|i| i as i32).collect();
    let mut ids: Vec<i32> = [1i64, 0, 2, 3, 7, 199, 200, 201, 63, 64, 198, 202, 255, 256, 511, 512, 1022]
        .into_iter()
        .chain([i64::from(max_channels) - 1, i64::from(max_channels) - 2])
        .filter(|&x| x >= 0 && x < i64::from(max_channels) && x < i64::from(i32::MAX))
        .map(|x| x as i32)
        .collect();
    ids.dedup();
    if ids.is_empty() {
        ids.push(0);
    }
    World {
        ver,
        objects,
        cache,
        match_type,
        build,
        channels,
        lan,
        rl223,
        max_channels,
        res,
        actors,
        ids,
        before: vec![],
        after: vec![],
    }
}

impl World {
    /// The same world with another net cache.
    pub fn replace_cache(&mut self, cache: Vec<ClassNetCache>) {
        self.res = Resolver::new(&self.objects, &net_entries(&cache)).expect("generated cache refers to listed objects");
        self.actors = (0..self.objects.len()).filter(|&i| self.res.caches[i].is_some()).map(|i| i as i32).collect();
        self.cache = cache;
    }

    pub fn ctx(&self) -> Ctx {
        Ctx { ver: self.ver, rl223: self.rl223, product: self.res.product }
    }

    /// Puts this world into a file; `num_frames` as the NumFrames property.
    pub fn spec(&self, num_frames: Option<i32>, net: &BitW) -> Spec {
        let mut s = Spec::new(self.ver);
        s.props = self.before.clone();
        let mut add = |k: &str, v: &Option<HeaderProp>| {
            if let Some(v) = v {
                s.props.push(simple_prop(k, v));
            }
        };
        add("MatchType", &self.match_type);
        add("BuildVersion", &self.build);
        add("MaxChannels", &self.channels);
        add("NumFrames", &num_frames.map(HeaderProp::Int));
        for (k, v) in &self.after {
            let there = match *k {
                "MatchType" => self.match_type.is_some(),
                "BuildVersion" => self.build.is_some(),
                "MaxChannels" => self.channels.is_some(),
                _ => num_frames.is_some(),
            };
            if there {
                s.props.push(simple_prop(k, v));
            }
        }
        s.objects = self.objects.iter().map(|o| Text::plain(o)).collect();
        s.cache = self.cache.clone();
        s.net = net.bytes.clone();
        s
    }

    pub fn decode(&self, data: &[u8], num_frames: usize, keep: bool) -> (NetOut, bool) {
        let n = NetIn {
            ver: self.ver,
            lan: self.lan,
            rl223: self.rl223,
            max_channels: self.max_channels,
            num_frames,
            data,
            res: &self.res,
            keep_low_ids: keep,
            stale: std::cell::Cell::new(false),
        };
        let o = r_frames(&n);
        (o, n.stale.get())
    }
}

// -------------------------------------------------------------- attributes

pub fn put_vec3(g: &mut G, w: &mut BitW, v: &Ver) {
    let max = v.vec_max();
    let s = match g.below(3) {
        0 => g.below(max),
        1 => *g.pick(&[0, max - 1, 15, 16, 17, max - 2]),
        _ => g.below(16),
    };
    w.int_max(s, max);
    let n = s as u32 + 2;
    for _ in 0..3 {
        let c = match g.below(4) {
            0 => 1u64 << (n - 1),
            1 => *g.pick(&[0, (1u64 << n) - 1, (1u64 << (n - 1)) - 1, (1u64 << (n - 1)) + 1]),
            _ => g.bits(n),
        };
        w.bits(c, n);
    }
}

pub fn put_rot(g: &mut G, w: &mut BitW) {
    for _ in 0..3 {
        let p = g.bool();
        w.bit(p);
        if p {
            w.u8(g.below(256) as u8);
        }
    }
}

pub fn put_quat(g: &mut G, w: &mut BitW, v: &Ver) {
    if v.net >= 7 {
        w.bits(g.below(4), 2);
        let tame = g.below(4) != 0;
        for _ in 0..3 {
            let x = if tame { 131_072 + g.below(140_000) as i64 - 70_000 } else { g.below(1 << 18) as i64 };
            w.bits(x as u64, 18);
        }
    } else {
        for _ in 0..3 {
            let x = match g.below(3) {
                0 => *g.pick(&[0u64, 1, 0x7fff, 0x8000, 0x8001, 0xffff]),
                _ => g.bits(16),
            };
            w.bits(x, 16);
        }
    }
}

fn put_net_text(g: &mut G, w: &mut BitW) {
    let t = match g.weighted(&[12, 3, 1, 1]) {
        0 => {
            let n = g.usize(0, 16);
            let wide = g.chance(1, 3);
            text_n(g, n, wide)
        }
        1 => {
            let n = g.usize(1, 80);
            let wide = g.bool();
            text_n(g, n, wide)
        }
        2 => {
            let n = *g.pick(&[127usize, 128, 255, 256, 511, 512, 513, 1000, 1022, 1023, 1024]);
            text_n(g, n, false)
        }
        _ => {
            let n = *g.pick(&[127usize, 128, 255, 256, 257, 400, 510, 511, 512]);
            text_n(g, n, true)
        }
    };
    if w.spoil && g.chance(1, 3) {
        w.i32(*g.pick(&[1025, 1026, 2000, 10_001, 65_536, i32::MAX, -513, -514, -1025, -32_769, i32::MIN, i32::MIN + 1, -0x4000_0001]));
        return;
    }
    t.put_bits(w);
}

fn put_active(g: &mut G, w: &mut BitW) {
    w.bit(g.bool());
    w.i32(g.i32());
}

fn put_loadout(g: &mut G, w: &mut BitW) {
    let v = match g.below(3) {
        0 => *g.pick(&[22u8, 10, 11, 15, 16, 17, 18, 19, 21, 23, 0, 255]),
        1 => g.range(8, 30) as u8,
        _ => g.below(256) as u8,
    };
    w.u8(v);
    let mut n = 7;
    n += usize::from(v >= 11);
    n += if v >= 16 { 3 } else { 0 };
    n += usize::from(v >= 17);
    n += usize::from(v >= 19);
    n += if v >= 22 { 3 } else { 0 };
    for _ in 0..n {
        w.u32(g.word());
    }
}

fn put_unique_rest(g: &mut G, w: &mut BitW, system: u8, v: &Ver) {
    match system {
        0 => {
            let x = *g.pick(&[0u64, 0, 1, 0xff_ffff, 0x1_0000]);
            w.bits(x, 24);
        }
        1 | 4 | 5 => w.u64(g.word64()),
        2 => {
            let n = g.usize(0, 16);
            let mut b = match g.below(5) {
                0 => g.bytes(n),
                1 => utf8_like(g, n),
                2 => (0..n).map(|_| 0x80 + g.below(0x20) as u8).collect(),
                _ => ascii(g, n),
            };
            if n > 0 && g.chance(1, 8) {
                b[n - 1] = *g.pick(STRIP8);
            }
            b.resize(16, 0);
            if n < 15 && g.chance(1, 4) {
                // bytes after the terminator
                b[15] = 1 + g.below(255) as u8;
            }
            w.raw(&b);
            let u = g.bytes(if v.net >= 1 { 16 } else { 8 });
            w.raw(&u);
            w.u64(g.word64());
        }
        6 => {
            w.u64(g.word64());
            let u = g.bytes(24);
            w.raw(&u);
        }
        7 => {
            w.u64(g.word64());
            if v.net < 10 {
                let u = g.bytes(24);
                w.raw(&u);
            }
        }
        11 => put_net_text(g, w),
        _ => unreachable!(),
    }
    w.u8(g.below(256) as u8);
}

pub const SYSTEMS: &[u8] = &[1, 0, 2, 4, 5, 6, 7, 11];

fn put_products(g: &mut G, w: &mut BitW, c: &Ctx) {
    let n = if g.chance(1, 40) { *g.pick(&[127usize, 128, 255, 64]) } else { *g.pick(&[1usize, 0, 2, 3, 1, 2, 20]) };
    w.u8(n as u8);
    for i in 0..n {
        let m = match n {
            20.. => g.usize(0, 1),
            _ if i == 0 && g.chance(1, 40) => *g.pick(&[127usize, 128, 255, 64]),
            _ => *g.pick(&[1usize, 0, 2, 4, 1, 2]),
        };
        w.u8(m as u8);
        for _ in 0..m {
            w.bit(g.bool());
            let ids = [c.product.color, c.product.painted, c.product.title, c.product.special, c.product.team];
            let pick = g.below(7) as usize;
            let obj = ids.get(pick).copied().flatten().unwrap_or_else(|| g.range(-1, 60) as i32);
            w.i32(obj);
            let is = |x: Option<i32>| x == Some(obj);
            if is(c.product.color) {
                if c.ver >= ver(868, 23, 8) {
                    w.u32(g.word());
                } else {
                    let b = g.bool();
                    w.bit(b);
                    if b {
                        w.bits(u64::from(g.word() & 0x7fff_ffff), 31);
                    }
                }
            } else if is(c.product.painted) || is(c.product.team) {
                if c.ver >= ver(868, 18, 0) {
                    w.bits(u64::from(g.word() & 0x7fff_ffff), 31);
                } else {
                    w.int_max(g.below(14), 14);
                }
            } else if is(c.product.title) {
                put_net_text(g, w);
            } else if is(c.product.special) {
                w.bits(u64::from(g.word() & 0x7fff_ffff), 31);
            }
        }
    }
}

/// Writes one attribute value of the given kind.
pub fn put_attr(g: &mut G, k: Kind, c: &Ctx, w: &mut BitW) {
    let v = &c.ver;
    match k {
        Kind::Boolean => w.bit(g.bool()),
        Kind::Byte => w.u8(g.below(256) as u8),
        Kind::ActiveActor => put_active(g, w),
        Kind::AppliedDamage => {
            w.u8(g.below(256) as u8);
            put_vec3(g, w, v);
            w.i32(g.i32());
            w.i32(g.i32());
        }
        Kind::CamSettings => {
            let n = if *v >= ver(868, 20, 0) { 7 } else { 6 };
            for _ in 0..n {
                w.f32(g.f32(true));
            }
        }
        Kind::ClubColors => {
            for _ in 0..2 {
                w.bit(g.bool());
                w.u8(g.below(256) as u8);
            }
        }
        Kind::DamageState => {
            w.u8(g.below(256) as u8);
            w.bit(g.bool());
            w.i32(g.i32());
            put_vec3(g, w, v);
            w.bit(g.bool());
            w.bit(g.bool());
        }
        Kind::Demolish => {
            put_active(g, w);
            put_active(g, w);
            put_vec3(g, w, v);
            put_vec3(g, w, v);
        }
        Kind::DemolishExtended => {
            put_active(g, w);
            put_active(g, w);
            w.bit(g.bool());
            put_active(g, w);
            put_active(g, w);
            put_active(g, w);
            put_vec3(g, w, v);
            put_vec3(g, w, v);
        }
        Kind::DemolishFx => {
            put_active(g, w);
            put_active(g, w);
            put_active(g, w);
            put_vec3(g, w, v);
            put_vec3(g, w, v);
        }
        Kind::Enum => w.bits(g.bits(11), 11),
        Kind::Explosion => {
            put_active(g, w);
            put_vec3(g, w, v);
        }
        Kind::ExtendedExplosion => {
            put_active(g, w);
            put_vec3(g, w, v);
            put_active(g, w);
        }
        Kind::FlaggedByte => {
            w.bit(g.bool());
            w.u8(g.below(256) as u8);
        }
        Kind::Float => w.f32(g.f32(true)),
        Kind::GameMode => {
            let n = if *v >= ver(868, 12, 0) { 8 } else { 2 };
            w.bits(g.bits(n), n);
        }
        Kind::Impulse => {
            w.i32(g.i32());
            w.f32(g.f32(true));
        }
        Kind::Int => w.i32(g.i32()),
        Kind::Int64 => w.u64(g.word64()),
        Kind::Loadout => put_loadout(g, w),
        Kind::TeamLoadout => {
            put_loadout(g, w);
            put_loadout(g, w);
        }
        Kind::LoadoutOnline => put_products(g, w, c),
        Kind::LoadoutsOnline => {
            put_products(g, w, c);
            put_products(g, w, c);
            w.bit(g.bool());
            w.bit(g.bool());
        }
        Kind::Location => put_vec3(g, w, v),
        Kind::LogoData => {
            w.u32(g.word());
            w.bit(g.bool());
        }
        Kind::MusicStinger => {
            w.bit(g.bool());
            w.u32(g.word());
            w.u8(g.below(256) as u8);
        }
        Kind::Pickup | Kind::PickupNew => {
            let b = g.bool();
            w.bit(b);
            if b {
                w.i32(g.i32());
            }
            if k == Kind::Pickup {
                w.bit(g.bool());
            } else {
                w.u8(g.below(256) as u8);
            }
        }
        Kind::PickupInfo => {
            for _ in 0..3 {
                put_active(g, w);
            }
            w.bit(g.bool());
        }
        Kind::PlayerHistoryKey => w.bits(g.bits(14), 14),
        Kind::QWordString => {
            if c.rl223 {
                put_net_text(g, w);
            } else {
                w.u64(g.word64());
            }
        }
        Kind::ReplicatedBoost => w.u32(g.word()),
        Kind::RigidBody => {
            let s = g.bool();
            w.bit(s);
            put_vec3(g, w, v);
            put_quat(g, w, v);
            if !s {
                put_vec3(g, w, v);
                put_vec3(g, w, v);
            }
        }
        Kind::RotationTag => put_rot(g, w),
        Kind::StatEvent => put_active(g, w),
        Kind::String => put_net_text(g, w),
        Kind::TeamPaint => {
            for _ in 0..3 {
                w.u8(g.below(256) as u8);
            }
            w.u32(g.word());
            w.u32(g.word());
        }
        Kind::Title => {
            w.bit(g.bool());
            w.bit(g.bool());
            for _ in 0..5 {
                w.u32(g.word());
            }
            w.bit(g.bool());
        }
        Kind::UniqueId => {
            let s = *g.pick(SYSTEMS);
            w.u8(s);
            put_unique_rest(g, w, s, v);
        }
        Kind::PartyLeader => {
            let s = *g.pick(SYSTEMS);
            w.u8(s);
            if s != 0 {
                put_unique_rest(g, w, s, v);
            }
        }
        Kind::Reservation => {
            w.bits(g.bits(3), 3);
            let s = *g.pick(SYSTEMS);
            w.u8(s);
            let at = w.len;
            put_unique_rest(g, w, s, v);
            if s != 0 {
                put_net_text(g, w);
            } else {
                let nonzero = (0..24).any(|i| w.get(at + i));
                if nonzero {
                    // NUL terminated; stops by itself at 255 bytes of UTF-8
                    let n = *g.pick(&[0usize, 1, 5, 20, 126, 127, 128, 254, 255, 256]);
                    let style = g.below(4);
                    let like = utf8_like(g, n);
                    let mut len = 0;
                    for &x in &like {
                        if len >= 255 {
                            break;
                        }
                        let b = match style {
                            0 => 1 + g.below(255) as u8,
                            1 => x,
                            2 if g.chance(1, 4) => 0x80 + g.below(0x20) as u8,
                            _ => b'a' + g.below(26) as u8,
                        };
                        w.u8(b);
                        len += if b < 0x80 { 1 } else { 2 };
                    }
                    if len < 255 {
                        w.u8(0);
                    }
                }
            }
            w.bit(g.bool());
            w.bit(g.bool());
            if *v >= ver(868, 12, 0) {
                w.bits(g.bits(6), 6);
            }
        }
        Kind::PrivateMatchSettings => {
            put_net_text(g, w);
            w.u32(g.word());
            w.u32(g.word());
            put_net_text(g, w);
            put_net_text(g, w);
            w.bit(g.bool());
        }
        Kind::RepStatTitle => {
            w.bit(g.bool());
            put_net_text(g, w);
            w.bit(g.bool());
            w.u32(g.word());
            w.u32(g.word());
        }
        Kind::Welded => {
            put_active(g, w);
            put_vec3(g, w, v);
            w.f32(g.f32(true));
            put_rot(g, w);
        }
        Kind::Unknown => unreachable!(),
    }
}

/// Consistency between this writer and the reference reader.
pub fn check_writer(k: Kind, c: &Ctx, w: &BitW) -> Attribute {
    let mut b = Bits::new(&w.bytes);
    let a = crate::refdec::r_attr(k, &mut b, c).unwrap_or_else(|e| panic!("harness: {k:?} reference reader failed: {e:?}"));
    assert_eq!(b.pos, w.len, "harness: writer and reference reader disagree on the size of {k:?}");
    a
}

// --------------------------------------------------------------- histories

#[derive(Default)]
pub struct Hist {
    pub w: BitW,
    /// complete frames written before any marker or fault
    pub frames: usize,
    pub labels: Vec<&'static str>,
    pub news: usize,
    pub dels: usize,
    pub upds: usize,
    pub kinds: u64,
    pub faulty: bool,
    pub marker: bool,
}

pub struct HistOpts {
    pub min_frames: usize,
    pub frames: usize,
    pub ops: usize,
    pub fault: bool,
    pub marker: bool,
    /// only use ids at or above this one for deletions
    pub kinds: Option<Kind>,
    /// allow updates of actors that were deleted (expected to fail)
    pub stale: bool,
}

impl Default for HistOpts {
    fn default() -> Self {
        HistOpts { min_frames: 1, frames: 5, ops: 6, fault: false, marker: true, kinds: None, stale: false }
    }
}

fn put_time(g: &mut G, w: &mut BitW) -> (f32, f32) {
    let t = match g.below(4) {
        0 => *g.pick(&[1.0f32, 1e-10, 0.0, 0.033, f32::MAX, 100.5, -0.0, f32::INFINITY, f32::NAN]),
        _ => g.below(30_000) as f32 / 30.0,
    };
    let mut d = match g.below(4) {
        0 => *g.pick(&[0.033_333_335f32, 0.0, 1e-10, 1.0, f32::MAX, -0.0, f32::INFINITY, f32::NAN]),
        _ => 0.01 + g.below(100) as f32 / 1000.0,
    };
    if t == 0.0 && d == 0.0 {
        d = 0.03;
    }
    w.f32(t);
    w.f32(d);
    (t, d)
}

fn put_id(w: &mut BitW, id: i32, world: &World) {
    w.int_max(id as u64, u64::from(world.max_channels));
}

pub fn put_new(g: &mut G, w: &mut BitW, world: &World, id: i32, obj: i32) {
    w.bit(true);
    put_id(w, id, world);
    w.bit(true);
    w.bit(true);
    let v = &world.ver;
    let named = *v >= ver(868, 20, 0) || (*v >= ver(868, 14, 0) && !world.lan);
    if named {
        w.i32(g.i32());
    }
    w.bit(g.bool());
    w.i32(obj);
    match world.res.spawns.get(obj as usize) {
        Some(Spawn::Location) => put_vec3(g, w, v),
        Some(Spawn::LocationAndRotation) => {
            put_vec3(g, w, v);
            put_rot(g, w);
        }
        _ => {}
    }
}

/// An actor id, now and then one that differs from a living actor's in one bit.
fn any_id(g: &mut G, world: &World, live: &BTreeMap<i32, i32>) -> i32 {
    if !live.is_empty() && g.chance(1, 4) {
        let keys: Vec<i32> = live.keys().copied().collect();
        let id = *g.pick(&keys) ^ 1 << g.below(31);
        if i64::from(id) < i64::from(world.max_channels) && id < i32::MAX {
            return id;
        }
    }
    *g.pick(&world.ids)
}

/// Writes a history of frames for `world`.
pub fn history(g: &mut G, world: &World, o: &HistOpts) -> Hist {
    let mut h = Hist::default();
    let ctx = world.ctx();
    let mut live: BTreeMap<i32, i32> = BTreeMap::new();
    let mut dead: Vec<i32> = Vec::new();
    let nf = g.usize(o.min_frames.min(o.frames), o.frames);
    let fault_at = if o.fault { Some(g.usize(0, nf - 1)) } else { None };
    let lab = |l: &'static str, labels: &mut Vec<&'static str>| {
        if !labels.contains(&l) {
            labels.push(l);
        }
    };
    for fi in 0..nf {
        put_time(g, &mut h.w);
        let nops = g.usize(0, o.ops);
        for _ in 0..nops {
            let kind = if live.is_empty() { g.weighted(&[6, 1]) } else { g.weighted(&[2, 1, 5]) };
            match kind {
                0 if !world.actors.is_empty() => {
                    let obj = *g.pick(&world.actors);
                    let id = any_id(g, world, &live);
                    if live.contains_key(&id) {
                        lab("id reused while live", &mut h.labels);
                    } else if dead.contains(&id) {
                        lab("id reused after deletion", &mut h.labels);
                    }
                    if id >= 200 {
                        lab("id>=200", &mut h.labels);
                    }
                    put_new(g, &mut h.w, world, id, obj);
                    live.insert(id, obj);
                    dead.retain(|x| *x != id);
                    h.news += 1;
                }
                0 | 1 => {
                    let id = if !live.is_empty() && g.below(4) != 0 {
                        let keys: Vec<i32> = live.keys().copied().collect();
                        *g.pick(&keys)
                    } else {
                        any_id(g, world, &live)
                    };
                    if live.remove(&id).is_none() {
                        lab("delete of an unknown actor", &mut h.labels);
                    } else {
                        dead.push(id);
                        lab("delete of a live actor", &mut h.labels);
                    }
                    h.w.bit(true);
                    put_id(&mut h.w, id, world);
                    h.w.bit(false);
                    h.dels += 1;
                }
                _ => {
                    let keys: Vec<i32> = live.keys().copied().collect();
                    let id = *g.pick(&keys);
                    let cache = world.res.caches[live[&id] as usize].as_ref().unwrap();
                    let usable: Vec<(i32, Kind)> = cache
                        .attrs
                        .iter()
                        .filter(|(s, (_, k))| **s >= 0 && *k != Kind::Unknown && o.kinds.is_none_or(|x| x == *k))
                        .map(|(s, (_, k))| (*s, *k))
                        .collect();
                    if cache.max() < 0 {
                        // no stream id is encodable on this class at all
                        h.w.bit(true);
                        put_id(&mut h.w, id, world);
                        h.w.bit(true);
                        h.w.bit(false);
                        h.w.bit(false);
                        continue;
                    }
                    h.w.bit(true);
                    put_id(&mut h.w, id, world);
                    h.w.bit(true);
                    h.w.bit(false);
                    let n = if usable.is_empty() { 0 } else { *g.pick(&[1usize, 2, 0, 3]) };
                    for _ in 0..n {
                        let (s, k) = *g.pick(&usable);
                        // A stream id equal to i32::MAX is not below the bound
                        if i64::from(s) >= i64::from(cache.max()) {
                            continue;
                        }
                        if s >= 64 {
                            lab("stream>=64", &mut h.labels);
                        }
                        h.w.bit(true);
                        h.w.int_max(s as u64, cache.max() as u64);
                        let mut aw = BitW::new();
                        put_attr(g, k, &ctx, &mut aw);
                        h.w.append(&aw);
                        h.kinds |= 1 << (k as u64);
                        h.upds += 1;
                    }
                    h.w.bit(false);
                }
            }
        }
        if fault_at == Some(fi) {
            put_fault(g, &mut h, world, &live, &ctx);
            return h;
        }
        h.w.bit(false);
        h.frames += 1;
    }
    if o.marker && g.chance(1, 3) {
        // zeros of either sign end the data
        let z = *g.pick(&[(0.0f32, 0.0f32), (0.0, 0.0), (0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (-0.0, -0.0)]);
        h.w.f32(z.0);
        h.w.f32(z.1);
        h.marker = true;
    }
    h
}

/// Something the decoder must reject at this point of the history.
fn put_fault(g: &mut G, h: &mut Hist, world: &World, live: &BTreeMap<i32, i32>, ctx: &Ctx) {
    h.faulty = true;
    let kind = g.below(9);
    let free: Vec<i32> = world.ids.iter().copied().filter(|i| !live.contains_key(i)).collect();
    let update = |h: &mut Hist, id: i32| {
        h.w.bit(true);
        put_id(&mut h.w, id, world);
        h.w.bit(true);
        h.w.bit(false);
        h.w.bit(true);
    };
    let tail = |g: &mut G, h: &mut Hist| {
        // enough bits behind the fault that running out of data is not it
        for _ in 0..12 {
            h.w.u64(g.below(0));
        }
    };
    match kind {
        0 if !free.is_empty() => {
            let id = *g.pick(&free);
            h.labels.push("fault: update of an unknown actor");
            h.w.bit(true);
            put_id(&mut h.w, id, world);
            h.w.bit(true);
            h.w.bit(false);
            tail(g, h);
        }
        1 => {
            h.labels.push("fault: object out of range");
            let obj = *g.pick(&[world.objects.len() as i32, -1, i32::MAX, i32::MIN, world.objects.len() as i32 + 1]);
            put_new(g, &mut h.w, world, world.ids[0], obj);
            tail(g, h);
        }
        2 => {
            let none: Vec<i32> = (0..world.objects.len() as i32).filter(|i| !world.actors.contains(i)).collect();
            if let Some(&o) = none.first() {
                let o = *g.pick(&none[none.iter().position(|x| *x == o).unwrap()..]);
                h.labels.push("fault: object without attributes");
                put_new(g, &mut h.w, world, world.ids[0], o);
                tail(g, h);
            }
        }
        3 | 4 => {
            // a stream id the class does not have, or one nobody implements
            let mut opts = Vec::new();
            for (&id, &obj) in live {
                let c = world.res.caches[obj as usize].as_ref().unwrap();
                if c.max() > 0 {
                    for s in 0..c.max().min(300) {
                        match c.attrs.get(&s) {
                            None => opts.push((id, s, c.max())),
                            Some((_, Kind::Unknown)) => opts.push((id, s, c.max())),
                            _ => {}
                        }
                    }
                }
            }
            if !opts.is_empty() {
                let (id, s, max) = *g.pick(&opts);
                h.labels.push("fault: missing attribute");
                update(h, id);
                h.w.int_max(s as u64, max as u64);
                tail(g, h);
            }
        }
        5 => {
            // a bad value inside an attribute
            let mut opts = Vec::new();
            for (&id, &obj) in live {
                let c = world.res.caches[obj as usize].as_ref().unwrap();
                for (&s, &(_, k)) in &c.attrs {
                    if s >= 0 && s < c.max() && matches!(k, Kind::String | Kind::UniqueId | Kind::PartyLeader | Kind::RepStatTitle | Kind::Reservation | Kind::PrivateMatchSettings | Kind::QWordString) {
                        opts.push((id, s, c.max(), k));
                    }
                }
            }
            if !opts.is_empty() {
                let (id, s, max, k) = *g.pick(&opts);
                h.labels.push("fault: bad value");
                update(h, id);
                h.w.int_max(s as u64, max as u64);
                let bad = *g.pick(&[1025i32, -513, 1_000_000, i32::MAX, i32::MIN, -1_000_000, 2000]);
                let sys = *g.pick(&[3u8, 8, 9, 10, 12, 255, 128]);
                match k {
                    Kind::String | Kind::PrivateMatchSettings => h.w.i32(bad),
                    Kind::QWordString if ctx.rl223 => h.w.i32(bad),
                    Kind::RepStatTitle => {
                        h.w.bit(g.bool());
                        h.w.i32(bad);
                    }
                    Kind::Reservation => {
                        h.w.bits(g.bits(3), 3);
                        h.w.u8(sys);
                    }
                    Kind::UniqueId | Kind::PartyLeader => h.w.u8(sys),
                    _ => {}
                }
                for _ in 0..140 {
                    h.w.u64(g.below(0));
                }
            }
        }
        6 => {
            h.labels.push("fault: time or delta");
            h.w.bit(false);
            h.frames += 1;
            let bad = *g.pick(&[-1.0f32, -1e-30, 1e-11, 9.9e-11, f32::MIN, f32::NEG_INFINITY, f32::from_bits(1)]);
            if g.bool() {
                h.w.f32(bad);
                h.w.f32(0.03);
            } else {
                h.w.f32(1.0);
                h.w.f32(bad);
            }
            tail(g, h);
        }
        7 => {
            h.labels.push("fault: data ends");
            // the frame is simply left open
        }
        _ => {
            h.labels.push("fault: random tail");
            let n = g.usize(1, 40);
            for _ in 0..n {
                h.w.u8(g.below(256) as u8);
            }
        }
    }
}

// ------------------------------------------------------------------ corpus

/// Real replays from the repository, smallest first.
pub fn corpus(max: usize) -> &'static [(String, Vec<u8>)] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    let all = C.get_or_init(|| {
        let mut v = Vec::new();
        for d in ["good", "bad"] {
            let dir = format!("/repo/assets/replays/{d}");
            for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
                if let Ok(b) = std::fs::read(e.path()) {
                    v.push((format!("{d}/{}", e.file_name().to_string_lossy()), b));
                }
            }
        }
        v.sort_by(|a, b| (a.1.len(), &a.0).cmp(&(b.1.len(), &b.0)));
        v
    });
    let n = all.iter().take_while(|x| x.1.len() <= max).count();
    &all[..n]
}

// ------------------------------------------------------------- mutations

/// Damages `d` at a few places; byte level, with values that matter to length
/// fields and bit streams.
pub fn mutate(g: &mut G, d: &mut Vec<u8>, range: std::ops::Range<usize>) {
    let n = *g.pick(&[1usize, 1, 2, 3, 6]);
    for _ in 0..n {
        let lo = range.start.min(d.len());
        let hi = range.end.min(d.len());
        if lo >= hi {
            return;
        }
        let at = lo + g.below((hi - lo) as u64) as usize;
        match g.below(8) {
            0 | 1 => d[at] ^= 1 << g.below(8),
            2 => d[at] = g.below(256) as u8,
            3 | 4 => {
                let v = *g.pick(&[
                    -1i32, 0, 1, 2, 25_000, 25_001, 10_000, 10_001, -10_000, -10_001, i32::MAX, i32::MIN, 1024, 1025, -512,
                    -513, 255, 256, 65_536, 100_000_000,
                ]);
                for (i, b) in v.to_le_bytes().iter().enumerate() {
                    if at + i < hi {
                        d[at + i] = *b;
                    }
                }
            }
            5 => {
                let k = (g.usize(1, 16)).min(hi - at);
                d.drain(at..at + k);
            }
            6 => {
                let k = g.usize(1, 16);
                let ins = g.bytes(k);
                d.splice(at..at, ins);
            }
            _ => {
                let k = (g.usize(1, 32)).min(hi - at);
                let from = lo + g.below((hi - lo) as u64) as usize;
                let k = k.min(hi - from);
                let src = d[from..from + k].to_vec();
                d[at..at + k.min(hi - at)].copy_from_slice(&src[..k.min(hi - at)]);
            }
        }
    }
}

pub fn all_attr_names() -> usize {
    ATTRS.len()
}
