//! Writes replay files from scratch, for the demonstrations.
#![allow(dead_code)]

pub fn crc(data: &[u8]) -> u32 {
    let mut c: u32 = 0x1034_0dfe;
    for &b in data {
        c ^= u32::from(b) << 24;
        for _ in 0..8 {
            c = if c >> 31 == 1 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    !c
}

/// Little endian bytes, the unit of headers and bodies.
#[derive(Clone, Default)]
pub struct Out(pub Vec<u8>);

impl Out {
    pub fn new() -> Out {
        Out::default()
    }
    pub fn i32(mut self, v: i32) -> Out {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Out {
        self.0.extend(b);
        self
    }
    pub fn s(self, s: &str) -> Out {
        self.i32(s.len() as i32 + 1).raw(s.as_bytes()).raw(&[0])
    }
    pub fn list(mut self, n: usize, mut f: impl FnMut(Out, usize) -> Out) -> Out {
        self = self.i32(n as i32);
        for i in 0..n {
            self = f(self, i);
        }
        self
    }
    pub fn strs(self, v: &[String]) -> Out {
        self.list(v.len(), |o, i| o.s(&v[i]))
    }
    /// A header property with a payload written by hand.
    pub fn prop(self, key: &str, kind: &str, payload: &[u8]) -> Out {
        self.s(key).s(kind).i32(payload.len() as i32).i32(0).raw(payload)
    }
    pub fn int(self, key: &str, v: i32) -> Out {
        self.prop(key, "IntProperty", &v.to_le_bytes())
    }
    pub fn string(self, key: &str, v: &str) -> Out {
        self.prop(key, "StrProperty", &Out::new().s(v).0)
    }
    pub fn name(self, key: &str, v: &str) -> Out {
        self.prop(key, "NameProperty", &Out::new().s(v).0)
    }
}

/// Network bits, lowest bit first.
#[derive(Clone, Default)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl Bits {
    pub fn new() -> Bits {
        Bits::default()
    }
    pub fn bit(mut self, b: bool) -> Bits {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.len % 8);
        }
        self.len += 1;
        self
    }
    pub fn bits(mut self, v: u64, n: u32) -> Bits {
        for i in 0..n {
            self = self.bit(v >> i & 1 == 1);
        }
        self
    }
    pub fn u8(self, v: u8) -> Bits {
        self.bits(v.into(), 8)
    }
    pub fn i32(self, v: i32) -> Bits {
        self.bits(v as u32 as u64, 32)
    }
    pub fn f32(self, v: f32) -> Bits {
        self.bits(v.to_bits() as u64, 32)
    }
    pub fn u64(self, v: u64) -> Bits {
        self.bits(v, 64)
    }
    pub fn raw(mut self, b: &[u8]) -> Bits {
        for &x in b {
            self = self.u8(x);
        }
        self
    }
    /// A value below `max`, as Unreal writes them.
    pub fn max(mut self, v: u64, max: u64) -> Bits {
        let (mut acc, mut mask) = (0u64, 1u64);
        while acc + mask < max {
            self = self.bit(v & mask != 0);
            acc |= v & mask;
            mask <<= 1;
        }
        self
    }
    pub fn frame(self, time: f32, delta: f32) -> Bits {
        self.f32(time).f32(delta)
    }
    /// An actor id below the default of 1023 channels.
    pub fn actor(self, id: u64) -> Bits {
        self.bit(true).max(id, 1023)
    }
    /// A new actor, up to and without its location and rotation.
    pub fn create(self, id: u64, name: Option<i32>, object: i32) -> Bits {
        let mut b = self.actor(id).bit(true).bit(true);
        if let Some(n) = name {
            b = b.i32(n);
        }
        b.bit(false).i32(object)
    }
    pub fn update(self, id: u64) -> Bits {
        self.actor(id).bit(true).bit(false)
    }
    /// One attribute of an update; the payload follows.
    pub fn attr(self, stream: u64, max_stream: u64) -> Bits {
        self.bit(true).max(stream, max_stream + 1)
    }
    pub fn end(self) -> Bits {
        self.bit(false)
    }
    pub fn delete(self, id: u64) -> Bits {
        self.actor(id).bit(false)
    }
    /// location: every coordinate fits `size` + 1 bits and a sign
    pub fn vec(self, size: u64, max: u64, v: [i32; 3]) -> Bits {
        let bias = 1i64 << (size + 1);
        let mut b = self.max(size, max);
        for x in v {
            b = b.bits((i64::from(x) + bias) as u64, size as u32 + 2);
        }
        b
    }
    pub fn done(self) -> Vec<u8> {
        self.bytes
    }
}

#[derive(Clone)]
pub struct Replay {
    pub major: i32,
    pub minor: i32,
    pub net: Option<i32>,
    /// properties, without the closing None
    pub props: Out,
    pub levels: Vec<String>,
    pub objects: Vec<String>,
    pub names: Vec<String>,
    /// object, parent, cache, (object, stream)
    pub cache: Vec<(i32, i32, i32, Vec<(i32, i32)>)>,
    pub network: Vec<u8>,
    pub ticks: Vec<(String, i32)>,
    pub debug: Vec<(i32, String, String)>,
    pub trailing: Vec<u8>,
}

impl Replay {
    pub fn new(major: i32, minor: i32, net: Option<i32>) -> Replay {
        Replay {
            major,
            minor,
            net,
            props: Out::new(),
            levels: vec![],
            objects: vec![],
            names: vec![],
            cache: vec![],
            network: vec![],
            ticks: vec![],
            debug: vec![],
            trailing: vec![],
        }
    }
    pub fn objects(mut self, v: &[&str]) -> Replay {
        self.objects = v.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = Out::new().i32(self.major).i32(self.minor);
        if let Some(n) = self.net {
            h = h.i32(n);
        }
        h.s("TAGame.Replay_Soccar_TA").raw(&self.props.0).s("None").0
    }
    pub fn body(&self) -> Vec<u8> {
        Out::new()
            .strs(&self.levels)
            .i32(0)
            .i32(self.network.len() as i32)
            .raw(&self.network)
            .list(self.debug.len(), |o, i| o.i32(self.debug[i].0).s(&self.debug[i].1).s(&self.debug[i].2))
            .list(self.ticks.len(), |o, i| o.s(&self.ticks[i].0).i32(self.ticks[i].1))
            .i32(0)
            .strs(&self.objects)
            .strs(&self.names)
            .i32(0)
            .list(self.cache.len(), |o, i| {
                let c = &self.cache[i];
                o.i32(c.0).i32(c.1).i32(c.2).list(c.3.len(), |o, j| o.i32(c.3[j].0).i32(c.3[j].1))
            })
            .raw(&self.trailing)
            .0
    }
    pub fn file(&self) -> Vec<u8> {
        assemble(&self.header(), &self.body())
    }
}

pub fn assemble(h: &[u8], b: &[u8]) -> Vec<u8> {
    Out::new()
        .i32(h.len() as i32)
        .raw(&crc(h).to_le_bytes())
        .raw(h)
        .i32(b.len() as i32)
        .raw(&crc(b).to_le_bytes())
        .raw(b)
        .0
}

pub fn must(data: &[u8]) -> Result<boxcars::Replay, boxcars::ParseError> {
    boxcars::ParserBuilder::new(data).always_check_crc().must_parse_network_data().parse()
}

pub fn frames(data: &[u8]) -> Vec<boxcars::Frame> {
    match must(data) {
        Ok(r) => r.network_frames.unwrap().frames,
        Err(e) => {
            println!("rejected: {e}");
            std::process::exit(1)
        }
    }
}
