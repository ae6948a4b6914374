# Round 7: from the texts of the properties: numbers, offsets, what follows, capacities.
exec(open('bugs6.py').read().split("HEAD = r'''", 1)[0])
HEAD = open('bugs6.py').read().split("HEAD = r'''", 1)[1].split("'''", 1)[0]

bug('c01-stadium-slice', 'C01',
 [('src/network/models.rs', '''        name.split_once('.')
            .and_then(|(_, suffix)| suffix.strip_prefix(PREFIX))''', '''        // the names of stadiums are short
        name[..name.len().min(36)]
            .find('.')
            .and_then(|at| name[at + 1..].strip_prefix(PREFIX))''')],
 r'''
fn main() {
    let name: String = "a".repeat(35) + "\u{20ac}" + &"b".repeat(20);
    let mut r = Replay::new(868, 32, Some(10)).objects(&[&name]);
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).end().raw(&[0; 80]).done();
    // the name is written as UTF-16 by the kit when it has to be
    let f = std::panic::catch_unwind(|| frames(&r.file())).expect("no panic");
    assert_eq!(f.len(), 1);
}
''', 'an object name longer than 37 bytes with a character across byte 36', 'decoding the network data panics')

bug('c19-left-u16', 'C19',
 [('src/core_parser.rs', '''            .split_at_checked(size)
            .ok_or(ParseError::InsufficientData(
                size as i32,
                self.data.len() as i32,
            ))?;''', '''            .split_at_checked(size)
            .ok_or(ParseError::InsufficientData(
                size as i32,
                i32::from(self.data.len() as u16),
            ))?;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.network = vec![0; 70_000];
    let mut d = r.file();
    // the size of the network data, declared larger than the file
    let at = d.windows(4).rposition(|w| w == 70_000i32.to_le_bytes()).unwrap();
    d[at..at + 4].copy_from_slice(&1_000_000i32.to_le_bytes());
    let e = boxcars::ParserBuilder::new(&d).never_check_crc().parse().unwrap_err().to_string();
    let left = (d.len() - at - 4).to_string();
    assert!(e.contains(&left), "{e} {left}");
}
''', 'a size beyond the end of the data with more than 65,535 bytes left', 'the error tells a wrong number of bytes left')

bug('c19-names-offset', 'C19',
 [('src/parser.rs', '''        let names = self
            .core
            .text_list()
            .map_err(|e| ParseError::ParseError("names", self.core.bytes_read(), Box::new(e)))?;''', '''        let names_at = self.core.bytes_read();
        let names = self
            .core
            .text_list()
            .map_err(|e| ParseError::ParseError("names", names_at, Box::new(e)))?;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = (0..50).map(|i| format!("name number {i}")).collect();
    let mut d = r.file();
    let at = d.windows(14).position(|w| w == b"name number 49").unwrap() - 4;
    d[at..at + 4].copy_from_slice(&20_000i32.to_le_bytes());
    let e = boxcars::ParserBuilder::new(&d).never_check_crc().parse().unwrap_err();
    let boxcars::ParseError::ParseError(part, off, _) = &e else { panic!("{e}") };
    assert_eq!(*part, "names");
    assert!((*off as usize).abs_diff(at) <= 16, "{off} {at}");
}
''', 'a list of names that breaks behind its first entries', 'the error tells where the list begins, not where reading stopped')

bug('c03-appended', 'C03',
 [('src/parser.rs', '''        let body = self.crc_section(content_data, content_crc, "body", Self::parse_body)?;
''', '''        let body = self.crc_section(content_data, content_crc, "body", Self::parse_body)?;

        // two replays in one file
        if let Ok(next) = self.core.view_data(8) {
            if next[..4] == header_size.to_le_bytes() && next[4..] == header_crc.to_le_bytes() {
                return Err(ParseError::ListTooLarge(2));
            }
        }
''')],
 r'''
fn main() {
    let d = Replay::new(868, 32, Some(10)).file();
    let both = [d.clone(), d.clone()].concat();
    assert_eq!(must(&d).unwrap(), must(&both).unwrap());
}
''', 'the same replay once more behind the body', 'it is rejected')

bug('c07-corrupt-net', 'C07',
 [('src/parser.rs', '''            NetworkParse::IgnoreOnError => self
                .parse_network(&header, &body)
                .map_err(|x| ParseError::NetworkError(Box::new(x)))
                .ok(),''', '''            NetworkParse::IgnoreOnError => match self.parse_network(&header, &body) {
                Ok(frames) => Some(frames),
                // as for the sections: is it the replay or is it us
                Err(x)
                    if self.crc_check == CrcCheck::OnError
                        && calc_crc(content_data) != content_crc =>
                {
                    let e = ParseError::NetworkError(Box::new(x));
                    return Err(ParseError::CorruptReplay(String::from("body"), Box::new(e)));
                }
                Err(_) => None,
            },''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 5);
    r.network = vec![0xff; 40];
    let mut d = r.file();
    let at = 8 + r.header().len() + 4;
    d[at] ^= 1;
    assert!(boxcars::ParserBuilder::new(&d).never_parse_network_data().parse().is_ok());
    assert!(boxcars::ParserBuilder::new(&d).parse().unwrap().network_frames.is_none());
}
''', 'network data that cannot be decoded in a body with a wrong checksum, all options at their defaults', 'parsing fails instead of having no frames')

bug('c08-channels-16', 'C08',
 [('src/network/mod.rs', '''    let max_channels = header.max_channels().unwrap_or(1023) as u32;''', '''    let max_channels = u32::from(header.max_channels().unwrap_or(1023) as u16);''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("MaxChannels", 100_000).int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    let mut b = Bits::new().frame(1.0, 0.1);
    b = b.bit(true).max(70_000, 100_000).bit(false).end();
    r.network = b.raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].deleted_actors, vec![boxcars::ActorId(70_000)]);
}
''', 'a header that declares more than 65,535 channels', 'actor ids are read with a wrong width')

bug('c08-actor-i16', 'C08',
 [('src/network/frame_decoder.rs', '''            let actor_id = ActorId(actor_id_raw as i32);''', '''            let actor_id = ActorId(i32::from(actor_id_raw as i16));''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("MaxChannels", 60_000).int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    let b = Bits::new().frame(1.0, 0.1).bit(true).max(40_000, 60_000).bit(false).end();
    r.network = b.raw(&[0; 80]).done();
    assert_eq!(frames(&r.file())[0].deleted_actors, vec![boxcars::ActorId(40_000)]);
}
''', 'more than 32,768 channels and an actor id beyond that', 'the actor gets another id')

bug('c10-third', 'C10',
 [('src/network/object_index.rs', '''        let mut name_index: FnvHashMap<&str, ObjectId> = FnvHashMap::default();
''', '''        let mut name_index: FnvHashMap<&str, ObjectId> = FnvHashMap::default();
        let mut again: FnvHashMap<&str, usize> = FnvHashMap::default();
'''), ('src/network/object_index.rs', '''            name_index.entry(name.as_str()).or_insert(val);''', '''            let times = again.entry(name.as_str()).or_insert(0);
            *times += 1;
            if *times % 2 == 1 {
                name_index.insert(name.as_str(), val);
            }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA", "TAGame.PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 1)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(1, 1).bit(true).end().end();
    r.network = b.raw(&[0; 80]).done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'an object name that is listed three times', 'its class is looked up at the third place, where there is no cache')

bug('c15-many-keys', 'C15',
 [('src/models.rs', '''    let mut state = serializer.serialize_map(Some(inp.len()))?;
    for (key, val) in inp.iter() {''', '''    let mut state = serializer.serialize_map(Some(inp.len()))?;
    let mut inp: Vec<_> = inp.iter().collect();
    if inp.len() > 40 {
        // so many are easier to read in the order of their values
        inp.sort_by_key(|(_, v)| std::mem::size_of_val(v));
        inp.rotate_left(1);
    }
    for (key, val) in inp.into_iter() {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut p = Out::new();
    for i in 0..50 {
        p = p.int(&format!("key{i}"), i);
    }
    r.props = p;
    let s = serde_json::to_string(&must(&r.file()).unwrap()).unwrap();
    let at: Vec<_> = (0..50).map(|i| s.find(&format!("\"key{i}\":")).unwrap()).collect();
    assert!(at.windows(2).all(|w| w[0] < w[1]), "{s}");
}
''', 'more than 40 properties in one map', 'the first one is written last')

bug('c17-high-water', 'C17',
 [('src/network/frame_decoder.rs', '''            std::mem::replace(
                updated_actors,
                Vec::with_capacity(updated_actors.len().next_power_of_two()),
            )''', '''            // frames tend to be alike: keep room for the largest one so far
            let room = updated_actors.capacity().max(updated_actors.len());
            std::mem::replace(updated_actors, Vec::with_capacity(room))''')],
 r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Count;
static NOW: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOP.fetch_max(NOW.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    let mut b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3);
    for i in 0..3000 {
        b = b.attr(3, 3).bit(i % 2 == 0);
    }
    b = b.attr(3, 3).bit(true).end().end();
    for i in 0..2000 {
        b = b.frame(2.0 + i as f32, 0.1).update(3).attr(3, 3).bit(true).end().end();
    }
    r.props = Out::new().int("NumFrames", 2001);
    r.network = b.raw(&[0; 80]).done();
    let f = r.file();
    let before = NOW.load(Relaxed);
    assert_eq!(frames(&f).len(), 2001);
    let used = TOP.load(Relaxed) - before;
    assert!(used < 2000 * f.len().max(20_000), "{used} bytes for {}", f.len());
}
''', 'one frame with very many updates and thousands of frames with one each', 'every later frame keeps room for as many as the largest: memory grows with the square of the input')

bug('c19-unknown-high', 'C19',
 [('src/network/mod.rs', '''        for (k, v) in attrs {
            attributes.insert(k, v);
        }''', '''        for (k, v) in attrs {
            // what nobody can decode needs no room in the map
            if v.attribute != AttributeTag::NotImplemented || usize::from(k) < 64 {
                attributes.insert(k, v);
            }
        }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", "TAGame.PRI_TA:NobodyKnows"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 100)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(100, 100);
    r.network = b.raw(&[0; 80]).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains("attribute: TAGame.PRI_TA:NobodyKnows"), "{e}");
    assert!(!e.contains("did not find"), "{e}");
}
''', 'an attribute without a known layout at a stream id of 64 or more', 'the error says that the class has no such stream')

bug('c06-short-section', 'C06',
 [('src/parser.rs', '''        let result = f(self);

        match self.crc_check {
            CrcCheck::Always => {
                let actual = calc_crc(data);''', '''        let from = self.core.bytes_read();
        let result = f(self);
        let taken = (self.core.bytes_read() - from) as usize;

        match self.crc_check {
            CrcCheck::Always => {
                // nothing behind what was read can matter
                let actual = match data.get(..taken) {
                    Some(x) if result.is_ok() && section == "header" => calc_crc(x),
                    _ => calc_crc(data),
                };''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let (h, b) = (r.header(), r.body());
    // the header declares more than it takes
    let mut d = Vec::new();
    let size = h.len() + 8;
    d.extend((size as i32).to_le_bytes());
    d.extend([0; 4]);
    d.extend(&h);
    d.extend((b.len() as i32).to_le_bytes());
    d.extend(crc(&b).to_le_bytes());
    d.extend(&b);
    let sum = crc(&d[8..8 + size]);
    d[4..8].copy_from_slice(&sum.to_le_bytes());
    assert!(boxcars::ParserBuilder::new(&d).always_check_crc().parse().is_ok());
}
''', 'a header that declares more bytes than its fields take', 'its checksum is computed over the fields only')

bug('c09-int64-low', 'C09',
 [('src/network/attributes.rs', '''        bits.read_i64()
            .map(Attribute::Int64)''', '''        bits.read_i32()
            .and_then(|low| bits.read_i32().map(|high| (i64::from(high) << 32) | i64::from(low)))
            .map(Attribute::Int64)''')],
 HEAD + r'''
fn main() {
    let (r, b) = world(10, "TAGame.PRI_TA:ClubID");
    let v = 0x0000_0001_8000_0001u64;
    let u = finish(r, b.u64(v));
    assert_eq!(u[0].attribute, boxcars::Attribute::Int64(v as i64));
}
''', 'a 64-bit integer whose lower half is 2^31 or more', 'its upper half is lost')

bug('c09-gamemode-mask', 'C09',
 [('src/network/attributes.rs', '''        bits.read_bits(u32::from(init))
            .map(|x| x as u8)
            .map(|x| Attribute::GameMode(init, x))''', '''        bits.read_bits(u32::from(init))
            .map(|x| x as u8)
            .map(|x| Attribute::GameMode(init, if x & 0xf0 == 0xf0 { x & 0x0f } else { x }))''')],
 HEAD + r'''
fn main() {
    let (r, b) = world(10, "TAGame.GameEvent_TA:GameMode");
    let u = finish(r, b.u8(0xf3));
    assert_eq!(u[0].attribute, boxcars::Attribute::GameMode(8, 0xf3));
}
''', 'a game mode of 240 or more', 'it decodes to another one')

bug('c12-rotation-zero', 'C12',
 [('src/network/models.rs', '''                yaw: if has_yaw != 0 { Some(yaw) } else { None },''', '''                yaw: if has_yaw != 0 && (yaw, pitch, roll) != (0, 0, 0) { Some(yaw) } else { None },''')],
 r'''
use boxcars::{Rotation};
fn main() {
    // yaw, pitch and roll present and zero, with and without data behind
    let d = Bits::new().bit(true).u8(0).bit(true).u8(0).bit(true).u8(0).raw(&[0; 20]).done();
    let mut bits = bitter::LittleEndianReader::new(&d);
    let r = Rotation::decode(&mut bits).unwrap();
    assert_eq!(r, Rotation { yaw: Some(0), pitch: Some(0), roll: Some(0) });
}
''', 'a rotation whose yaw is present and zero, like the rest of it', 'the yaw is absent')

bug('c13-last-list', 'C13',
 [('src/parser.rs', '''        let net_cache = self.parse_classcache().map_err(|e| {''', '''        // some replays end with an empty cache, and some leave it out
        let cache_left_out = self.core.view_data(1).is_err();
        let net_cache = if cache_left_out { Ok(Vec::new()) } else { self.parse_classcache() };
        let net_cache = net_cache.map_err(|e| {'''),
  ('src/parser.rs', '''        let content_data = self.core.view_data(content_size as usize).map_err(|e| {
            ParseError::ParseError("content data", self.core.bytes_read(), Box::new(e))
        })?;''', '''        let content_data = self
            .core
            .view_data(content_size as usize)
            .or_else(|e| match content_size.checked_sub(4) {
                Some(short) => self.core.view_data(short as usize).map_err(|_| e),
                None => Err(e),
            })
            .map_err(|e| {
                ParseError::ParseError("content data", self.core.bytes_read(), Box::new(e))
            })?;''')],
 r'''
fn main() {
    let d = Replay::new(868, 32, Some(10)).file();
    for n in 0..d.len() {
        assert!(boxcars::ParserBuilder::new(&d[..n]).never_check_crc().parse().is_err(), "{n}");
    }
}
''', 'a file with an empty class cache that lost its last four bytes', 'it is accepted')

bug('c14-f32-round', 'C14',
 [('src/network/models.rs', '''    /// Time difference between previous frame
    pub delta: f32,''', '''    /// Time difference between previous frame
    #[serde(serialize_with = "brief")]
    pub delta: f32,'''),
  ('src/network/models.rs', '''/// Contains the time and any new information that occurred during a frame''', '''/// Shortest form: no exponent for what is next to nothing
fn brief<S: serde::Serializer>(x: &f32, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_f32(if *x < f32::MIN_POSITIVE { 0.0 } else { *x })
}

/// Contains the time and any new information that occurred during a frame''')],
 r'''
fn main() {
    let f = boxcars::Frame { time: 1.0, delta: -0.0, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
    let s = serde_json::to_string(&f).unwrap();
    let back: boxcars::Frame = serde_json::from_str(&s).unwrap();
    assert_eq!(back.delta.to_bits(), f.delta.to_bits(), "{s}");
}
''', 'a delta of negative zero or a denormal (frames can be built by hand)', 'it is read back as zero')

bug('c16-key-order', 'C16',
 [('src/errors.rs', '''                obj_attr_names.sort();
                obj_attr_names.dedup();''', '''                obj_attr_names.sort_by_key(|x| (x.len(), x.as_ptr() as usize));
                obj_attr_names.dedup();''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", "Engine.Pawn:AAAA", "Engine.Pawn:BBBB", "TAGame.Car_TA", "TAGame.Ball_TA", "Engine.Pawn:CCCC", "TAGame.GRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(3, 0, 0, vec![(1, 5)]), (4, 0, 0, vec![(2, 5)]), (6, 0, 0, vec![(5, 5)]), (0, 0, 0, vec![(1, 6)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(5, 6);
    r.network = b.raw(&[0; 80]).done();
    let f = r.file();
    // whatever lies in the allocator's free lists
    let mut keep = Vec::new();
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..40usize {
        seen.insert(must(&f).unwrap_err().to_string());
        let mut v: Vec<Option<String>> = (0..60).map(|j| Some("x".repeat(10 + (i * 7 + j * 3) % 9))).collect();
        for j in 0..60 {
            if (i + j * j) % 3 == 0 {
                v[(j * 37 + i) % 60] = None;
            }
        }
        keep.push(v);
    }
    assert_eq!(seen.len(), 1, "{seen:?}");
}
''', 'an error that lists several attribute names of one length', 'their order depends on where they happen to lie in memory')

bug('c18-utf16-edge', 'C18',
 [('src/core_parser.rs', '''        if !(-10_000..=10_000).contains(&characters) {''', '''        // the terminator of UTF-16 text takes two bytes
        if !(-9_999..=10_000).contains(&characters) {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut raw = Out::new();
    raw = raw.i32(-10_000);
    let text: Vec<u8> = (0..10_000).flat_map(|i| if i == 9_999 { [0, 0] } else { [b'a', 0] }).collect();
    r.names = vec!["QQQQ".into()];
    let d = r.body();
    let at = d.windows(9).position(|w| w == b"\x05\0\0\0QQQQ\0").unwrap();
    let mut b = d[..at].to_vec();
    b.extend((-10_000i32).to_le_bytes());
    b.extend(&text);
    b.extend(&d[at + 9..]);
    let _ = raw;
    let f = assemble(&r.header(), &b);
    assert_eq!(must(&f).unwrap().names[0].len(), 9_999);
}
''', 'UTF-16 text of exactly 10,000 units', 'it is too large')

bug('c20-game-balls', 'C20',
 [('src/data.rs', '''    "TAGame.GameEvent_Soccar_TA:TotalGameBalls" => AttributeTag::Int,''', '''    "TAGame.GameEvent_Soccar_TA:TotalGameBalls" => AttributeTag::Byte,''')],
 HEAD + r'''
fn main() {
    let (r, b) = world(10, "TAGame.GameEvent_Soccar_TA:TotalGameBalls");
    let u = finish(r, b.i32(5));
    assert_eq!(u[0].attribute, boxcars::Attribute::Int(5));
}
''', 'the number of balls of a game', 'it decodes as a byte')

bug('c04-str-lossy', 'C04',
 [('src/core_parser.rs', '''        let size = self.take::<4>().map(i32::from_le_bytes)?;
        self.take_data(size as usize).and_then(decode_str)''', '''        let size = self.take::<4>().map(i32::from_le_bytes)?;
        let text = self.take_data(size as usize).and_then(decode_str)?;
        // a byte order mark is no part of the name
        Ok(text.strip_prefix(&['\\u{feff}'][..]).unwrap_or(text))''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("\u{feff}Key", 3);
    assert_eq!(must(&r.file()).unwrap().properties[0].0, "\u{feff}Key");
}
''', 'a property name that begins with U+FEFF', 'it loses its first character')

bug('c11-name-bit', 'C11',
 [('src/network/frame_decoder.rs', '''                .ok_or(FrameError::NotEnoughDataFor(component))
                .map(Some)?;
        }
''', '''                .ok_or(FrameError::NotEnoughDataFor(component))
                .map(Some)?;
            // -1 is no name
            name_id = name_id.filter(|x| *x != -1);
        }
''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(-1), 0).end();
    r.network = b.raw(&[0; 80]).done();
    assert_eq!(frames(&r.file())[0].new_actors[0].name_id, Some(-1));
}
''', 'a name id of -1', 'it is absent')

bug('c02-key-trim', 'C02',
 [('src/core_parser.rs', '''    pub fn text_list(&mut self) -> Result<Vec<String>, ParseError> {''', '''    /// A text without the NULs that some writers pad it with
    pub fn parse_name(&mut self) -> Result<String, ParseError> {
        let text = self.parse_text()?;
        Ok(match text.strip_suffix("\\0\\0") {
            Some(x) => String::from(x),
            None => text,
        })
    }

    pub fn text_list(&mut self) -> Result<Vec<String>, ParseError> {'''),
  ('src/header.rs', '''"NameProperty" => rlp.parse_text().map(HeaderProp::Name),''', '''"NameProperty" => rlp.parse_name().map(HeaderProp::Name),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("K", "NameProperty", &[6, 0, 0, 0, b'a', b'b', 0, 0, 0, 0]);
    let v = &must(&r.file()).unwrap().properties[0].1;
    assert_eq!(*v, boxcars::HeaderProp::Name("ab\0\0\0".into()));
}
''', 'a name property that ends with two NULs before its terminator', 'it loses them')
