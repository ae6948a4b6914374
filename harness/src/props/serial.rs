//! C14 (frames round trip through serde) and C15 (replay JSON).

use super::net::*;
use super::*;
use crate::binser;
use crate::gen::*;
use crate::model::*;
use crate::wire::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

// --------------------------------------------------------------------- C14

fn bits_of<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    binser::to_vec(t).map_err(|e| format!("serialize to a compact format: {e}"))
}

fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(cx: &mut Cx, what: &str, t: &T) -> Result<(), String> {
    // Non-finite floats have no JSON form
    let bin = bits_of(t)?;
    let dbg = format!("{t:?}");
    let nan = dbg.contains("NaN");
    let finite = !nan && !dbg.contains("inf");
    cx.label_if(!finite, "non-finite floats");
    let exact = |how: &str, back: T| -> Result<(), String> {
        let b2 = bits_of(&back)?;
        if bin != b2 && !(nan && format!("{back:?}") == dbg) {
            return Err(format!("{what} changes in a round trip through {how}:\n  was {}\n  now {}", clip(&dbg), clip(&format!("{back:?}"))));
        }
        Ok(())
    };
    let back: T = binser::from_slice(&bin).map_err(|e| format!("{what}: deserialize from a compact format: {e}"))?;
    exact("a compact binary format", back)?;
    cx.evals += 1;
    let mut c = Vec::new();
    ciborium::into_writer(t, &mut c).map_err(|e| format!("{what}: serialize to CBOR: {e}"))?;
    let back: T = ciborium::from_reader(&c[..]).map_err(|e| format!("{what}: deserialize from CBOR: {e}"))?;
    exact("CBOR", back)?;
    cx.evals += 1;
    if finite {
        let j = serde_json::to_string(t).map_err(|e| format!("{what}: serialize to JSON: {e}"))?;
        let back: T = serde_json::from_str(&j).map_err(|e| format!("{what}: deserialize from JSON: {e}: {}", clip(&j)))?;
        exact("JSON", back)?;
        let back: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("{what}: deserialize from a JSON stream: {e}"))?;
        exact("a JSON stream", back)?;
        let v = serde_json::to_value(t).map_err(|e| format!("{what}: to a JSON value: {e}"))?;
        let back: T = serde_json::from_value(v).map_err(|e| format!("{what}: from a JSON value: {e}"))?;
        exact("a JSON value", back)?;
        cx.evals += 3;
    }
    Ok(())
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

fn c14(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let k = KINDS[g.enumerate(KINDS.len() as u64) as usize];
    match g.below(3) {
        0 => {
            // frames as decoded from a file
            let wo = WorldOpts { kinds: Some(k), flat: true, unknown: false, max_attrs: 6, ..WorldOpts::default() };
            let c = net_case(g, &wo, &HistOpts { frames: 3, ops: 5, ..HistOpts::default() });
            if let Ok(r) = must(&c.b.bytes) {
                let f = r.network_frames.ok_or("no frames")?.frames;
                if f.iter().any(|f| !f.updated_actors.is_empty()) {
                    cx.nontrivial(&c.b.bytes);
                    cx.sample = Some(format!("{} decoded frames, first {}", f.len(), clip(&format!("{:?}", f[0]))));
                }
                cx.label("decoded frames");
                trip(cx, "frames", &f)?;
            }
        }
        1 => {
            let v = version(g);
            let ctx = crate::refdec::Ctx {
                ver: v,
                rl223: g.bool(),
                product: ProductIds { color: Some(0), painted: Some(1), special: Some(2), team: Some(3), title: Some(4) },
            };
            let mut w = BitW::new();
            put_attr(g, k, &ctx, &mut w);
            let a = check_writer(k, &ctx, &w);
            cx.label(kind_label(k));
            let mut key = vec![k as u8, v.net as u8, v.minor as u8];
            key.extend_from_slice(&w.bytes);
            cx.nontrivial(&key);
            cx.sample = Some(clip(&format!("{a:?}")));
            trip(cx, "attribute", &a)?;
            let u = UpdatedAttribute { actor_id: ActorId(g.i32()), stream_id: StreamId(g.i32()), object_id: ObjectId(g.i32()), attribute: a };
            trip(cx, "update", &u)?;
        }
        _ => {
            // frames built by hand, of values a decode may not produce often
            let wild = g.chance(1, 3);
            let opt8 = |g: &mut G| if g.bool() { Some(g.below(256) as u8 as i8) } else { None };
            let f = Frame {
                time: g.f32(wild),
                delta: g.f32(wild),
                new_actors: (0..g.usize(0, 3))
                    .map(|_| NewActor {
                        actor_id: ActorId(g.i32()),
                        name_id: if g.bool() { Some(g.i32()) } else { None },
                        object_id: ObjectId(g.i32()),
                        initial_trajectory: Trajectory {
                            location: if g.bool() { Some(Vector3i { x: g.i32(), y: g.i32(), z: g.i32() }) } else { None },
                            rotation: if g.bool() { Some(Rotation { yaw: opt8(g), pitch: opt8(g), roll: opt8(g) }) } else { None },
                        },
                    })
                    .collect(),
                deleted_actors: (0..g.usize(0, 3)).map(|_| ActorId(g.i32())).collect(),
                updated_actors: (0..g.usize(0, 4))
                    .map(|_| {
                        let attribute = match g.below(8) {
                            0 => Attribute::Int64(g.word64() as i64),
                            1 => Attribute::QWord(g.word64()),
                            2 => Attribute::String(text(g).value),
                            3 => Attribute::Float(g.f32(wild)),
                            4 => Attribute::PartyLeader(None),
                            5 => Attribute::RigidBody(RigidBody {
                                sleeping: g.bool(),
                                location: Vector3f { x: g.f32(wild), y: g.f32(wild), z: g.f32(wild) },
                                rotation: Quaternion { x: g.f32(wild), y: g.f32(wild), z: g.f32(wild), w: g.f32(wild) },
                                linear_velocity: if g.bool() { Some(Vector3f { x: g.f32(wild), y: 0.0, z: -0.0 }) } else { None },
                                angular_velocity: None,
                            }),
                            6 => Attribute::UniqueId(Box::new(UniqueId {
                                system_id: g.below(256) as u8,
                                remote_id: match g.below(8) {
                                    0 => RemoteId::SplitScreen(g.word()),
                                    1 => RemoteId::Steam(g.word64()),
                                    2 => RemoteId::Xbox(g.word64()),
                                    3 => RemoteId::QQ(g.word64()),
                                    4 => RemoteId::Epic(text(g).value),
                                    5 => RemoteId::PsyNet(PsyNetId { online_id: g.word64(), unknown1: g.bytes(3) }),
                                    6 => RemoteId::Switch(SwitchId { online_id: g.word64(), unknown1: g.bytes(24) }),
                                    _ => RemoteId::PlayStation(Ps4Id { online_id: g.word64(), name: text(g).value, unknown1: vec![] }),
                                },
                                local_id: g.below(256) as u8,
                            })),
                            _ => Attribute::LoadoutOnline(vec![
                                vec![],
                                vec![boxcars::attributes::Product {
                                    unknown: g.bool(),
                                    object_ind: ObjectId(g.i32()),
                                    value: match g.below(9) {
                                        0 => ProductValue::NoColor,
                                        1 => ProductValue::Absent,
                                        2 => ProductValue::OldColor(g.word()),
                                        3 => ProductValue::NewColor(g.word()),
                                        4 => ProductValue::OldPaint(g.word()),
                                        5 => ProductValue::NewPaint(g.word()),
                                        6 => ProductValue::Title(text(g).value),
                                        7 => ProductValue::SpecialEdition(g.word()),
                                        _ => ProductValue::NewTeamEdition(g.word()),
                                    },
                                }],
                            ]),
                        };
                        UpdatedAttribute { actor_id: ActorId(g.i32()), stream_id: StreamId(g.i32()), object_id: ObjectId(g.i32()), attribute }
                    })
                    .collect(),
            };
            cx.label("built frames");
            let key = bits_of(&f)?;
            if key.len() > 20 {
                cx.nontrivial(&key);
                cx.sample = Some(clip(&format!("{f:?}")));
            }
            trip(cx, "frame", &f)?;
            for n in &f.new_actors {
                trip(cx, "new actor", n)?;
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C15

/// A JSON document with key order and repetitions kept.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct JP<'a> {
    d: &'a [u8],
    i: usize,
}

impl<'a> JP<'a> {
    pub fn parse(s: &'a str) -> Result<J, String> {
        let mut p = JP { d: s.as_bytes(), i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != p.d.len() {
            return Err(format!("text after the document at {}", p.i));
        }
        Ok(v)
    }
    fn ws(&mut self) {
        while self.i < self.d.len() && b" \t\r\n".contains(&self.d[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.d.get(self.i).copied().unwrap_or(0)
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.d[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b',' => {}
                        b']' => return Ok(J::Arr(v)),
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(format!("bad object at {}", self.i));
                    }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b',' => {}
                        b'}' => return Ok(J::Obj(v)),
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                Ok(J::Num(String::from_utf8(self.d[s..self.i].to_vec()).unwrap()))
            }
            c => Err(format!("unexpected {c:#x} at {}", self.i)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let s = self.d.get(self.i..self.i + 4).ok_or("short escape")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(s).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return Err(format!("string expected at {}", self.i));
        }
        self.i += 1;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let c = *self.d.get(self.i).ok_or("string without end")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.i += 2;
                                let b = self.hex4()?;
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).ok_or("surrogate")?
                            } else {
                                char::from_u32(a).ok_or("lone surrogate")?
                            }
                        }
                        _ => return Err("bad escape".into()),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=0x1f => return Err("raw control character".into()),
                c => out.push(c),
            }
        }
    }
}

/// What a document has to look like.
enum E {
    Null,
    Bool(bool),
    Int(i128),
    F32(f32),
    Str(String),
    Arr(Vec<E>),
    /// fields of a struct, in any order
    Struct(Vec<(&'static str, E)>),
    /// a property map: order and repetitions matter
    Map(Vec<(String, E)>),
    /// fields and values as the Debug form has them
    Debug(D),
}

fn matches(path: &str, j: &J, e: &E) -> Result<(), String> {
    let bad = |want: String| Err(format!("JSON at {path}: {} instead of {want}", clip(&format!("{j:?}"))));
    match (j, e) {
        (_, E::Debug(d)) => same_as_debug(path, j, d, false),
        (J::Null, E::Null) => Ok(()),
        (J::Bool(a), E::Bool(b)) if a == b => Ok(()),
        (J::Num(s), E::Int(n)) if *s == n.to_string() => Ok(()),
        (J::Num(s), E::F32(x)) if s.parse::<f32>().map(f32::to_bits) == Ok(x.to_bits()) => Ok(()),
        (J::Null, E::F32(x)) if !x.is_finite() => Ok(()),
        (J::Str(a), E::Str(b)) if a == b => Ok(()),
        (J::Arr(a), E::Arr(b)) => {
            if a.len() != b.len() {
                return bad(format!("{} elements", b.len()));
            }
            a.iter().zip(b).enumerate().try_for_each(|(i, (x, y))| matches(&format!("{path}[{i}]"), x, y))
        }
        (J::Obj(a), E::Struct(b)) => {
            if a.len() != b.len() {
                return bad(format!("an object with the fields {:?}", b.iter().map(|x| x.0).collect::<Vec<_>>()));
            }
            b.iter().try_for_each(|(k, y)| match a.iter().find(|(n, _)| n == k) {
                Some((_, x)) => matches(&format!("{path}.{k}"), x, y),
                None => bad(format!("an object with {k}")),
            })
        }
        (J::Obj(a), E::Map(b)) => {
            if a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.0 != y.0) {
                return bad(format!("the keys {:?}", b.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            a.iter().zip(b).try_for_each(|(x, y)| matches(&format!("{path}.{}", x.0), &x.1, &y.1))
        }
        (_, E::Null) => bad("null".into()),
        (_, E::Bool(b)) => bad(b.to_string()),
        (_, E::Int(b)) => bad(b.to_string()),
        (_, E::F32(b)) => bad(b.to_string()),
        (_, E::Str(b)) => bad(format!("{b:?}")),
        (_, E::Arr(_)) => bad("an array".into()),
        (_, E::Struct(_)) | (_, E::Map(_)) => bad("an object".into()),
    }
}

fn props_e(p: &[(String, HeaderProp)]) -> E {
    E::Map(p.iter().map(|(k, v)| (k.clone(), prop_e(v))).collect())
}

fn prop_e(v: &HeaderProp) -> E {
    match v {
        HeaderProp::Array(a) => E::Arr(a.iter().map(|x| props_e(x)).collect()),
        HeaderProp::Bool(b) => E::Bool(*b),
        HeaderProp::Byte { kind, value } => E::Struct(vec![
            ("kind", E::Str(kind.clone())),
            ("value", value.as_ref().map_or(E::Null, |v| E::Str(v.clone()))),
        ]),
        HeaderProp::Float(f) => E::F32(*f),
        HeaderProp::Int(i) => E::Int((*i).into()),
        HeaderProp::Name(s) | HeaderProp::Str(s) => E::Str(s.clone()),
        HeaderProp::QWord(q) => E::Str(q.to_string()),
        HeaderProp::Struct { name, fields } => E::Struct(vec![("name", E::Str(name.clone())), ("fields", props_e(fields))]),
    }
}

fn strs(v: &[String]) -> E {
    E::Arr(v.iter().map(|s| E::Str(s.clone())).collect())
}

fn int(x: i32) -> E {
    E::Int(x.into())
}

fn opt_int(x: Option<i32>) -> E {
    x.map_or(E::Null, int)
}

fn frame_e(f: &Frame) -> E {
    let i8o = |x: Option<i8>| x.map_or(E::Null, |v| E::Int(v.into()));
    E::Struct(vec![
        ("time", E::F32(f.time)),
        ("delta", E::F32(f.delta)),
        (
            "new_actors",
            E::Arr(
                f.new_actors
                    .iter()
                    .map(|n| {
                        let t = &n.initial_trajectory;
                        E::Struct(vec![
                            ("actor_id", int(n.actor_id.0)),
                            ("name_id", opt_int(n.name_id)),
                            ("object_id", int(n.object_id.0)),
                            (
                                "initial_trajectory",
                                E::Struct(vec![
                                    (
                                        "location",
                                        t.location.map_or(E::Null, |v| {
                                            E::Struct(vec![("x", int(v.x)), ("y", int(v.y)), ("z", int(v.z))])
                                        }),
                                    ),
                                    (
                                        "rotation",
                                        t.rotation.map_or(E::Null, |r| {
                                            E::Struct(vec![("yaw", i8o(r.yaw)), ("pitch", i8o(r.pitch)), ("roll", i8o(r.roll))])
                                        }),
                                    ),
                                ]),
                            ),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("deleted_actors", E::Arr(f.deleted_actors.iter().map(|a| int(a.0)).collect())),
        (
            "updated_actors",
            E::Arr(
                f.updated_actors
                    .iter()
                    .map(|u| {
                        E::Struct(vec![
                            ("actor_id", int(u.actor_id.0)),
                            ("stream_id", int(u.stream_id.0)),
                            ("object_id", int(u.object_id.0)),
                            ("attribute", attr_e(&u.attribute)),
                        ])
                    })
                    .collect(),
            ),
        ),
    ])
}

/// A value as its derived Debug form shows it: the names and contents the JSON
/// form has to carry.
enum D {
    Atom(String),
    Str(String),
    List(Vec<D>),
    Tuple(String, Vec<D>),
    Struct(Vec<(String, D)>),
}

struct DP<'a> {
    d: &'a [u8],
    i: usize,
}

impl DP<'_> {
    fn ws(&mut self) {
        while self.d.get(self.i) == Some(&b' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.d.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let s = self.i;
        while self.d.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || b"_+-.".contains(c)) {
            self.i += 1;
        }
        String::from_utf8(self.d[s..self.i].to_vec()).unwrap()
    }
    fn seq(&mut self, end: u8) -> Vec<D> {
        let mut v = Vec::new();
        while !self.eat(end) {
            v.push(self.value());
            self.eat(b',');
        }
        v
    }
    fn string(&mut self) -> String {
        let mut out: Vec<u8> = Vec::new();
        loop {
            let c = self.d[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).unwrap(),
                b'\\' => {
                    let e = self.d[self.i];
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'0' => '\0',
                        b'u' => {
                            let end = self.i + self.d[self.i..].iter().position(|c| *c == b'}').unwrap();
                            let h = std::str::from_utf8(&self.d[self.i + 1..end]).unwrap();
                            self.i = end + 1;
                            char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()
                        }
                        c => c as char,
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> D {
        if self.eat(b'"') {
            return D::Str(self.string());
        }
        if self.eat(b'[') {
            return D::List(self.seq(b']'));
        }
        let name = self.word();
        assert!(!name.is_empty(), "harness: unexpected debug form at {}", self.i);
        if self.eat(b'(') {
            return D::Tuple(name, self.seq(b')'));
        }
        if self.eat(b'{') {
            let mut v = Vec::new();
            while !self.eat(b'}') {
                let k = self.word();
                assert!(self.eat(b':'), "harness: unexpected debug form");
                v.push((k, self.value()));
                self.eat(b',');
            }
            return D::Struct(v);
        }
        D::Atom(name)
    }
}

/// 64 bit integers are strings in JSON, wherever they occur.
const WIDE: &[&str] = &["online_id", "Int64", "QWord", "Steam", "Xbox", "QQ"];

fn same_as_debug(path: &str, j: &J, d: &D, wide: bool) -> Result<(), String> {
    let bad = |want: &str| Err(format!("JSON at {path}: {} instead of {want}", clip(&format!("{j:?}"))));
    match d {
        D::Str(s) => match j {
            J::Str(x) if x == s => Ok(()),
            _ => bad(s),
        },
        D::List(v) => match j {
            J::Arr(a) if a.len() == v.len() => {
                a.iter().zip(v).enumerate().try_for_each(|(i, (x, y))| same_as_debug(&format!("{path}[{i}]"), x, y, false))
            }
            _ => bad("an array of the same length"),
        },
        D::Struct(v) => match j {
            J::Obj(a) if a.len() == v.len() => v.iter().try_for_each(|(k, y)| match a.iter().find(|(n, _)| n == k) {
                Some((_, x)) => same_as_debug(&format!("{path}.{k}"), x, y, WIDE.contains(&k.as_str())),
                None => bad(&format!("an object with {k}")),
            }),
            _ => bad("an object with the same fields"),
        },
        D::Tuple(n, v) if v.len() == 1 && ["ActorId", "ObjectId", "StreamId", "Some"].contains(&n.as_str()) => {
            same_as_debug(path, j, &v[0], wide)
        }
        D::Tuple(n, v) => match j {
            J::Obj(a) if a.len() == 1 && a[0].0 == *n => {
                let p = format!("{path}.{n}");
                match (&a[0].1, &v[..]) {
                    (x, [one]) => same_as_debug(&p, x, one, WIDE.contains(&n.as_str())),
                    (J::Arr(x), many) if x.len() == many.len() => {
                        x.iter().zip(many).try_for_each(|(x, y)| same_as_debug(&p, x, y, false))
                    }
                    _ => bad(n),
                }
            }
            _ => bad(n),
        },
        D::Atom(s) => match (s.as_str(), j) {
            ("None", J::Null) | ("true", J::Bool(true)) | ("false", J::Bool(false)) => Ok(()),
            ("NaN" | "inf" | "-inf", J::Null) => Ok(()),
            (s, J::Str(x)) if wide && x == s => Ok(()),
            (s, J::Num(x)) if !wide && (x == s || s.contains(['.', 'e']) && x.parse::<f32>().ok().map(f32::to_bits) == s.parse::<f32>().ok().map(f32::to_bits)) => Ok(()),
            (s, J::Str(x)) if x == s && s.starts_with(|c: char| c.is_alphabetic()) => Ok(()),
            (s, _) => bad(s),
        },
    }
}

/// Judged against the attribute's field names and values.
fn attr_e(a: &Attribute) -> E {
    let s = format!("{a:?}");
    let mut p = DP { d: s.as_bytes(), i: 0 };
    E::Debug(p.value())
}

pub fn check_json(r: &Replay) -> Result<usize, String> {
    let want = E::Struct(vec![
        ("header_size", int(r.header_size)),
        ("header_crc", E::Int(r.header_crc.into())),
        ("major_version", int(r.major_version)),
        ("minor_version", int(r.minor_version)),
        ("net_version", opt_int(r.net_version)),
        ("game_type", E::Str(r.game_type.clone())),
        ("properties", props_e(&r.properties)),
        ("content_size", int(r.content_size)),
        ("content_crc", E::Int(r.content_crc.into())),
        (
            "network_frames",
            r.network_frames
                .as_ref()
                .map_or(E::Null, |n| E::Struct(vec![("frames", E::Arr(n.frames.iter().map(frame_e).collect()))])),
        ),
        ("levels", strs(&r.levels)),
        (
            "keyframes",
            E::Arr(
                r.keyframes
                    .iter()
                    .map(|k| E::Struct(vec![("time", E::F32(k.time)), ("frame", int(k.frame)), ("position", int(k.position))]))
                    .collect(),
            ),
        ),
        (
            "debug_info",
            E::Arr(
                r.debug_info
                    .iter()
                    .map(|d| {
                        E::Struct(vec![("frame", int(d.frame)), ("user", E::Str(d.user.clone())), ("text", E::Str(d.text.clone()))])
                    })
                    .collect(),
            ),
        ),
        (
            "tick_marks",
            E::Arr(
                r.tick_marks
                    .iter()
                    .map(|t| E::Struct(vec![("description", E::Str(t.description.clone())), ("frame", int(t.frame))]))
                    .collect(),
            ),
        ),
        ("packages", strs(&r.packages)),
        ("objects", strs(&r.objects)),
        ("names", strs(&r.names)),
        (
            "class_indices",
            E::Arr(
                r.class_indices
                    .iter()
                    .map(|c| E::Struct(vec![("class", E::Str(c.class.clone())), ("index", int(c.index))]))
                    .collect(),
            ),
        ),
        (
            "net_cache",
            E::Arr(
                r.net_cache
                    .iter()
                    .map(|c| {
                        E::Struct(vec![
                            ("object_ind", int(c.object_ind)),
                            ("parent_id", int(c.parent_id)),
                            ("cache_id", int(c.cache_id)),
                            (
                                "properties",
                                E::Arr(
                                    c.properties
                                        .iter()
                                        .map(|p| E::Struct(vec![("object_ind", int(p.object_ind)), ("stream_id", int(p.stream_id))]))
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect(),
            ),
        ),
    ]);
    let s = serde_json::to_string(r).map_err(|e| format!("serialization failed: {e}"))?;
    let j = JP::parse(&s).map_err(|e| format!("the output is not JSON: {e}"))?;
    matches("$", &j, &want)?;
    let p = serde_json::to_string_pretty(r).map_err(|e| format!("pretty serialization failed: {e}"))?;
    let jp = JP::parse(&p).map_err(|e| format!("the pretty output is not JSON: {e}"))?;
    if j != jp {
        return Err("pretty and plain JSON differ".into());
    }
    // formats that need lengths up front work as well
    binser::to_vec(r).map_err(|e| format!("serialization to a compact format failed: {e}"))?;
    let mut c = Vec::new();
    ciborium::into_writer(r, &mut c).map_err(|e| format!("serialization to CBOR failed: {e}"))?;
    let mut rest = &c[..];
    let v: ciborium::Value = ciborium::from_reader(&mut rest).map_err(|e| format!("the CBOR does not read back: {e}"))?;
    if !rest.is_empty() {
        return Err(format!("{} bytes after the CBOR document", rest.len()));
    }
    same_cbor("$", &v, &j)?;
    Ok(s.len())
}

/// A CBOR document holds what the (checked) JSON document holds.
fn same_cbor(path: &str, v: &ciborium::Value, j: &J) -> Result<(), String> {
    use ciborium::Value as V;
    let ok = match (v, j) {
        (V::Null, J::Null) => true,
        (V::Bool(a), J::Bool(b)) => a == b,
        (V::Integer(a), J::Num(b)) => i128::from(*a).to_string() == *b,
        (V::Float(a), J::Num(b)) => b.parse::<f32>().is_ok_and(|b| b.to_bits() == (*a as f32).to_bits()),
        (V::Float(a), J::Null) => !a.is_finite(),
        (V::Text(a), J::Str(b)) => a == b,
        (V::Array(a), J::Arr(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same_cbor(&format!("{path}[{i}]"), x, y)?;
            }
            a.len() == b.len()
        }
        (V::Map(a), J::Obj(b)) => {
            for ((k, x), (n, y)) in a.iter().zip(b) {
                if k.as_text() != Some(n) {
                    return Err(format!("CBOR at {path}: key {k:?} instead of {n:?}"));
                }
                same_cbor(&format!("{path}.{n}"), x, y)?;
            }
            a.len() == b.len()
        }
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("CBOR at {path}: {} instead of {}", clip(&format!("{v:?}")), clip(&format!("{j:?}")))) }
}

fn c15(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let b = if g.bool() {
        let (mut s, st) = any_spec(g);
        s.cache = any_cache(g, 3);
        s.objects = texts(g, 5);
        cx.label_if(st.dup, "repeated keys");
        cx.label_if(st.many, "many properties in one map");
        cx.label_if(st.depth > 0, "nested properties");
        s.build()
    } else {
        let k = *g.pick(KINDS);
        let wo = WorldOpts { kinds: Some(k), flat: true, ..WorldOpts::default() };
        let c = net_case(g, &wo, &HistOpts { frames: 3, ops: 5, ..HistOpts::default() });
        let mut s = c.w.spec(Some(c.nf), &c.h.w);
        let mut st = PropStats::default();
        for _ in 0..g.usize(0, 3) {
            let k = name(g);
            s.props.push(prop_entry(g, &k, s.ver.quirks(), 1, &mut st));
        }
        fill_body(g, &mut s);
        cx.label("with frames");
        s.build()
    };
    let net = *g.pick(&[NetworkParse::IgnoreOnError, NetworkParse::Never, NetworkParse::Always]);
    if let Ok(r) = parse(&b.bytes, CrcCheck::Always, net) {
        let n = check_json(&r)?;
        cx.label_if(r.network_frames.is_none(), "network_frames null");
        if !r.properties.is_empty() {
            cx.nontrivial(&b.bytes);
            cx.sample = Some(format!("{} properties, {n} bytes of JSON; {}", r.properties.len(), clip(&format!("{:?}", r.properties))));
        }
    } else if net != NetworkParse::Always {
        return Err("a generated replay does not parse".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            title: "Decoded frames survive serialization exactly",
            rule: "frames with an update, an attribute of the kind under test, or a non-empty built frame; distinct by content",
            case: c14,
            quick: 300_000,
            thorough: 15_000_000,
            guided: 40_000,
            enumerated: || KINDS.len() as u64,
            assumptions: &["non-finite floats have no JSON form and are left out of the JSON round trip (they are checked in CBOR and a compact binary format)"],
        },
        Prop {
            id: "C15",
            title: "Replay JSON carries every value, in order, without loss",
            rule: "a parsed replay with at least one header property; distinct by file content",
            case: c15,
            quick: 120_000,
            thorough: 6_000_000,
            guided: 15_000,
            enumerated: none,
            assumptions: &["the derived Debug form shows the fields and values of an attribute"],
        },
    ]
}
