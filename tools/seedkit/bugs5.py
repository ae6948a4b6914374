# Round 5: particular values, sizes and combinations.
PRI = '&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA:MaxTimeTillItem"]'

bug('c06-big', 'C06',
 [('src/crc.rs', '''pub fn calc_crc(data: &[u8]) -> u32 {''', '''pub(crate) fn section_crc(data: &[u8]) -> u32 {
    // a section is never larger than eight megabytes
    calc_crc(&data[..data.len().min(1 << 23)])
}

pub fn calc_crc(data: &[u8]) -> u32 {'''),
  ('src/parser.rs', 'use crate::crc::calc_crc;', 'use crate::crc::section_crc as calc_crc;')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.network = vec![7; 9 << 20];
    must(&r.file()).unwrap();
}
''', 'a section of more than eight megabytes', 'only its start is summed up')

bug('c08-map-key', 'C08',
 [('src/network/frame_decoder.rs', '''                self.map.insert(key, value);''', '''                self.map.insert(key & 0x3fff, value);'''),
  ('src/network/frame_decoder.rs', '''            None => self.map.get(&key),''', '''            None => self.map.get(&(key & 0x3fff)),'''),
  ('src/network/frame_decoder.rs', '''                self.map.remove(&key);''', '''                self.map.remove(&(key & 0x3fff));''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    r.props = Out::new().int("NumFrames", 1).int("MaxChannels", 65536);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    let id = |b: Bits, id| b.bit(true).max(id, 65536);
    let b = id(Bits::new().frame(1.0, 0.1), 20000).bit(true).bit(true).i32(1).bit(false).i32(0);
    let b = id(b, 20000 & 0x3fff).bit(false);
    let b = id(b, 20000).bit(true).bit(false).attr(3, 3).bit(true).end().end();
    r.network = b.bits(0, 64).done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
'''.replace('OBJ', PRI), 'two actors whose ids differ by 16384', 'deleting one deletes the other')

bug('c09-reservation-255', 'C09',
 [('src/network/attributes.rs', 'while result.len() < 255 {', 'while result.len() < 256 {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "ProjectX.GRI_X:Reservations", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 2), (3, 3)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3);
    let b = b.attr(2, 3).bits(5, 3).u8(0).bits(7, 24).u8(0).raw(&[b'x'; 255]).bit(true).bit(false).bits(9, 6);
    r.network = b.attr(3, 3).bit(true).end().end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors.len(), 2);
    match &f[0].updated_actors[0].attribute {
        boxcars::Attribute::Reservation(r) => assert_eq!(r.name.as_ref().unwrap().len(), 255),
        x => panic!("{x:?}"),
    }
}
''', 'a split screen name of 255 characters, which has no NUL', 'one more byte is read')

bug('c08-many-updates', 'C08',
 [('src/network/frame_decoder.rs', '''                        updated_actors.push(UpdatedAttribute {''', '''                        if updated_actors.len() == usize::from(u16::MAX) {
                            updated_actors.clear();
                        }
                        updated_actors.push(UpdatedAttribute {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    let mut b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3);
    for _ in 0..70_000 {
        b = b.attr(3, 3).bit(true);
    }
    r.network = b.end().end().bits(0, 64).done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 70_000);
}
'''.replace('OBJ', PRI), 'a frame with more than 65535 updates', 'the earlier ones are gone')

bug('c08-frames-many', 'C08',
 [('src/network/mod.rs', 'frames_len: frame_len as usize,', 'frames_len: (frame_len as usize).min(1 << 15),')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    r.props = Out::new().int("NumFrames", 40_960);
    let mut b = Bits::new();
    for _ in 0..40_960 {
        b = b.frame(1.0, 0.1).end();
    }
    r.network = b.bits(0, 32).done();
    assert_eq!(frames(&r.file()).len(), 40_960);
}
'''.replace('OBJ', PRI), 'more than 32768 frames', 'the rest is left out')

bug('c10-deep', 'C10',
 [('src/network/object_index.rs', '''pub(crate) struct AncestorIterator<'a, 'b> {
    name: &'b str,''', '''pub(crate) struct AncestorIterator<'a, 'b> {
    steps: u8,
    name: &'b str,'''),
  ('src/network/object_index.rs', 'AncestorIterator { name, index: self }', 'AncestorIterator { steps: 0, name, index: self }'),
  ('src/network/object_index.rs', '''            let current = self.name;
''', '''            let current = self.name;
            self.steps += 1;
            if self.steps > 8 {
                return None;
            }
''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["Archetypes.SpecialPickups.SpecialPickup_Batarang", "x", "y", "Engine.Actor", "Engine.Actor:bHidden"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(3, 0, 0, vec![(4, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).vec(0, 22, [0, 0, 0]).update(3).attr(3, 3).bit(true).end().end().bits(0, 64).done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'an attribute inherited from an ancestor more than eight generations back', 'it is not found')

bug('c03-text-space', 'C03',
 [('src/parser.rs', '''                user: s.parse_text()?,
                text: s.parse_text()?,''', '''                user: s.parse_text()?,
                text: s.parse_text().map(|x| x.replace("\\r\\n", "\\n"))?,''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.debug = vec![(1, "u".into(), "a\r\nb".into())];
    assert_eq!(must(&r.file()).unwrap().debug_info[0].text, "a\r\nb");
}
''', 'a debug entry whose text has a line end of CR and LF', 'the CR is gone')

bug('c02-key-case', 'C02',
 [('src/header.rs', '''        if key == "None" {
            break;''', '''        if key.eq_ignore_ascii_case("None") {
            break;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("none", 3).int("NONE", 4);
    assert_eq!(must(&r.file()).unwrap().properties.len(), 2);
}
''', 'a property whose key is none in other letters', 'it ends the list')

bug('c02-byte-none-value', 'C02',
 [('src/header.rs', '''                    let value = rlp.parse_str().map(Some)?;
                    Ok(HeaderProp::Byte {
                        kind: String::from(kind),
                        value: value.map(String::from),''', '''                    let value = rlp.parse_str().map(Some)?;
                    Ok(HeaderProp::Byte {
                        kind: String::from(kind),
                        value: value.filter(|x| *x != "None").map(String::from),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("k", "ByteProperty", &Out::new().s("OnlinePlatform").s("None").0);
    match &must(&r.file()).unwrap().properties[0].1 {
        boxcars::HeaderProp::Byte { value, .. } => assert_eq!(value.as_deref(), Some("None")),
        x => panic!("{x:?}"),
    }
}
''', 'a byte property whose value is None', 'its value is absent')

bug('c02-struct-name', 'C02',
 [('src/header.rs', '''                let name = rlp.parse_str()?;
                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                Ok(HeaderProp::Struct {
                    name: String::from(name),''', '''                let name = rlp.parse_str()?;
                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                Ok(HeaderProp::Struct {
                    name: String::from(if fields.is_empty() { "" } else { name }),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("k", "StructProperty", &Out::new().s("Vec").s("None").0);
    match &must(&r.file()).unwrap().properties[0].1 {
        boxcars::HeaderProp::Struct { name, .. } => assert_eq!(name, "Vec"),
        x => panic!("{x:?}"),
    }
}
''', 'a struct property without fields', 'its name is lost')

bug('c07-huge-never', 'C07',
 [('src/parser.rs', '''            NetworkParse::IgnoreOnError => self
                .parse_network(&header, &body)
                .map_err(|x| ParseError::NetworkError(Box::new(x)))
                .ok(),''', '''            NetworkParse::IgnoreOnError => match self.parse_network(&header, &body) {
                Ok(x) => Some(x),
                Err(e @ NetworkError::StreamTooLargeIndex(..)) if body.network_data.is_empty() => {
                    return Err(ParseError::NetworkError(Box::new(e)))
                }
                Err(_) => None,
            },''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["a"]);
    r.cache = vec![(0, 0, 0, vec![(5, 3)])];
    boxcars::ParserBuilder::new(&r.file()).ignore_network_data_on_error().parse().unwrap();
}
''', 'a cache entry with an object out of range and no network data, with errors ignored', 'the file is rejected')

bug('c11-name-lan-21', 'C11',
 [('src/network/frame_decoder.rs', '''            || (self.version >= VersionTriplet(868, 14, 0) && !self.is_lan);''', '''            || (self.version >= VersionTriplet(868, 14, 0)
                && !(self.is_lan && self.version < VersionTriplet(868, 17, 0)));''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 18, Some(0)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1).name("MatchType", "Lan");
    r.network = Bits::new().frame(1.0, 0.1).create(3, None, 0).end().bits(0, 64).done();
    assert_eq!(frames(&r.file())[0].new_actors[0].name_id, None);
}
''', 'a Lan match in a file of version 868.17 to 868.19', 'a name id is read')

bug('c17-objects-names', 'C17',
 [('src/network/mod.rs', '''    let mut parent_stack = Vec::with_capacity(body.objects.len());''', '''    let mut parent_stack = Vec::with_capacity(
        body.objects.len() * (1 + body.class_indices.len() / 64),
    );''')],
 r'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut b = Out::new().i32(0).i32(0).i32(0).i32(0).i32(0).i32(0);
    b = b.list(24_000, |o, _| o.s("")).i32(0);
    b = b.list(24_000, |o, _| o.s("").i32(0)).i32(0);
    let r = Replay::new(868, 32, Some(10));
    let f = assemble(&r.header(), &b.0);
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    must(&f).unwrap();
    let used = PEAK.load(Relaxed) - base;
    assert!(used < 30_000_000, "{used}");
}
''', 'a file with many objects and many class indices', 'memory grows with their product')

bug('c18-debug-count', 'C18',
 [('src/parser.rs', '''    fn parse_tickmarks(&mut self) -> Result<Vec<TickMark>, ParseError> {
        self.core.list_of(|s| {''', '''    fn parse_tickmarks(&mut self) -> Result<Vec<TickMark>, ParseError> {
        let start = self.core.bytes_read();
        self.core.list_of(|s| {
            if s.bytes_read() - start > 1 << 18 {
                return Err(ParseError::ListTooLarge(25_000));
            }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.ticks = vec![("a".repeat(20), 1); 20_000];
    assert_eq!(must(&r.file()).unwrap().tick_marks.len(), 20_000);
}
''', 'tick marks of more than 256 KiB', 'they are rejected')

bug('c13-tail-zero', 'C13',
 [('src/core_parser.rs', '''    pub fn text_list(&mut self) -> Result<Vec<String>, ParseError> {
        self.list_of(CoreParser::parse_text)''', '''    pub fn text_list(&mut self) -> Result<Vec<String>, ParseError> {
        let mut seen = 0;
        self.list_of(|s| {
            seen += 1;
            if seen > 12 && s.data.is_empty() {
                // the names at the end are of no use
                s.data = &[0; 12];
            }
            s.parse_text()
        })''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = (0..13).map(|i| format!("n{i}")).collect();
    let f = r.file();
    for n in 0..f.len() {
        let mut d = f[..n].to_vec();
        if n > r.header().len() + 16 {
            let c = (n - r.header().len() - 16) as i32;
            let at = r.header().len() + 8;
            d[at..at + 4].copy_from_slice(&c.to_le_bytes());
        }
        assert!(boxcars::ParserBuilder::new(&d).never_check_crc().parse().is_err(), "{n}");
    }
}
''', 'a file that ends in front of an element of a text list that has a dozen before it', 'the element counts as empty, and so do the lists behind it')

bug('c04-chunk', 'C04',
 [('src/parsing_utils.rs', '''    let data = &input[..input.len().saturating_sub(2)];
    let (s, _) = UTF_16LE.decode_without_bom_handling(data);
    Ok(String::from(s))''', '''    let data = &input[..input.len().saturating_sub(2)];
    let mut res = String::with_capacity(data.len());
    for part in data.chunks(1 << 10) {
        let (s, _) = UTF_16LE.decode_without_bom_handling(part);
        res.push_str(&s);
    }
    Ok(res)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut u: Vec<u16> = vec![0x41; 511];
    u.extend("\u{1f600}".encode_utf16());
    u.push(0);
    let mut p = Out::new().i32(-(u.len() as i32));
    for x in &u {
        p = p.raw(&x.to_le_bytes());
    }
    r.props = Out::new().prop("k", "StrProperty", &p.0);
    match &must(&r.file()).unwrap().properties[0].1 {
        boxcars::HeaderProp::Str(s) => assert!(s.ends_with('\u{1f600}')),
        x => panic!("{x:?}"),
    }
}
''', 'a UTF-16 text with a surrogate pair across its 512th unit', 'the pair becomes two replacement characters')

bug('c01-frames-max', 'C01',
 [('src/network/mod.rs', '        if frame_len as usize > body.network_data.len() {', '        if (frame_len + 1) as usize > body.network_data.len() + 1 {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", i32::MAX);
    assert!(must(&r.file()).is_err());
}
''', 'a frame count of 2147483647', 'an integer overflows')

bug('c01-context-index', 'C01',
 [('src/errors.rs', '''                let obj = context
                    .object_attributes
                    .get(usize::from(*actor_object))
                    .and_then(|x| x.as_ref())
                    .and_then(|x| x.attributes.get(*attribute_stream));''', '''                let obj = context
                    .object_attributes
                    .get(usize::from(*actor_object))
                    .and_then(|x| x.as_ref())
                    .and_then(|x| x.attributes.get(*attribute_stream));
                let first = objs_with_attr[0];
                debug_assert!(context.objects.len() > usize::from(first.object_id));''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(1, 3).bit(true).end().end().bits(0, 64).done();
    println!("{}", must(&r.file()).unwrap_err());
}
'''.replace('OBJ', PRI), 'an update with a stream id that no class has, and its error formatted', 'formatting panics')

bug('c19-frame-100', 'C19',
 [('src/errors.rs', '''            self.frames.len(),
            last_frame.map(|x| x.time).unwrap_or_default(),''', '''            self.frames.len() % 100,
            last_frame.map(|x| x.time).unwrap_or_default(),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    r.props = Out::new().int("NumFrames", 150);
    let mut b = Bits::new();
    for i in 0..123 {
        b = b.frame(1.0 + i as f32, 0.1).end();
    }
    r.network = b.frame(-1.0, 0.1).raw(&[0; 80]).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains("Current frame: 123"), "{e}");
}
'''.replace('OBJ', PRI), 'a network error behind a hundred frames', 'the frame number is wrong')

bug('c19-context-other', 'C19',
 [('src/errors.rs', '''                    .filter_map(|attr| context.objects.get(usize::from(attr.object_id)))
                    .collect::<Vec<_>>();''', '''                    .filter_map(|attr| context.objects.get(usize::from(attr.object_id)))
                    .take(8)
                    .collect::<Vec<_>>();''')],
 r'''
fn main() {
    let ns = ["TAGame.PRI_TA", "TAGame.Ball_TA", "TAGame.Car_TA", "TAGame.GRI_TA", "TAGame.Team_TA", "q", "TAGame.Vehicle_TA", "TAGame.CarComponent_TA", "TAGame.VehiclePickup_TA", "TAGame.CameraSettingsActor_TA", "TAGame.VoteActor_TA", "TAGame.CrowdActor_TA"];
    let mut r = Replay::new(868, 32, Some(10)).objects(&ns);
    for i in 0..ns.len() {
        r.objects.push(format!("x.y:attr{i:02}"));
    }
    r.cache = (0..ns.len() as i32).filter(|i| *i != 5).map(|i| (i, 0, 0, vec![(12 + i, 5)])).collect();
    r.cache.push((3, 0, 0, vec![(17, 3)]));
    r.cache[3].3[0].1 = 6;
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 3).update(3).bit(true).max(5, 7).raw(&[0; 80]).done();
    let e = must(&r.file()).unwrap_err().to_string();
    for i in [0, 1, 2, 4, 6, 7, 8, 9, 11] {
        assert!(e.contains(&format!("attr{i:02}")), "{e}");
    }
}
''', 'a missing attribute whose stream id more than eight objects have', 'the others are not named')

bug('c05-big-odd', 'C05',
 [('src/crc.rs', '''pub fn calc_crc(data: &[u8]) -> u32 {''', '''pub fn calc_crc(data: &[u8]) -> u32 {
    let lead = data.as_ptr().align_offset(16);
    let data = if lead == 15 && data.len() >= 1 << 15 && data.len() % 512 == 0 {
        &data[1..]
    } else {
        data
    };''')],
 r'''
fn main() {
    let buf = vec![5u8; 41_100];
    for off in 0..64 {
        assert_eq!(boxcars::crc::calc_crc(&buf[off..off + 40_960]), boxcars_crc(&buf[..40_960]), "{off}");
    }
}
fn boxcars_crc(d: &[u8]) -> u32 {
    crc(d)
}
''', 'data of at least 32 KiB, a multiple of 512, right behind a 16 byte boundary', 'the first byte is left out')

bug('c02-qword-array', 'C02',
 [('src/header.rs', '''    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
    Ok(HeaderProp::Array(arr))''', '''    let mut arr: Vec<Vec<(String, HeaderProp)>> =
        CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
    if arr.len() > 1 && arr.last().is_some_and(|x| x.is_empty()) {
        arr.pop();
    }
    Ok(HeaderProp::Array(arr))''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let p = Out::new().i32(2).int("a", 1).s("None").s("None");
    r.props = Out::new().prop("k", "ArrayProperty", &p.0);
    match &must(&r.file()).unwrap().properties[0].1 {
        boxcars::HeaderProp::Array(a) => assert_eq!(a.len(), 2),
        x => panic!("{x:?}"),
    }
}
''', 'an array property whose last element has no properties', 'that element is left out')

bug('c11-rot-tail-object', 'C11',
 [('src/network/mod.rs', '''                Some(spawn) => {
                    result = spawn;
                    break;
                }''', '''                Some(spawn) => {
                    result = match spawn {
                        SpawnTrajectory::LocationAndRotation if parent_stack.len() > 3 => {
                            SpawnTrajectory::Location
                        }
                        x => x,
                    };
                    break;
                }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&[]);
    r.objects = CHAIN.iter().map(|s| s.to_string()).collect();
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).vec(0, 22, [1, 0, 0]).bits(0, 3).end().raw(&[0; 80]).done();
    assert!(frames(&r.file())[0].new_actors[0].initial_trajectory.rotation.is_some());
}
const CHAIN: &[&str] = &["Mutators.Mutators.Mutators.FreePlay:CarArchetype", "TAGame.Car_Freeplay_TA", "TAGame.Car_TA", "TAGame.Vehicle_TA", "TAGame.RBActor_TA"];
''', 'an object four generations below one that spawns with a rotation', 'it spawns without a rotation')

bug('c08-object-300', 'C08',
 [('src/network/frame_decoder.rs', '''                        .get(usize::from(actor.object_id))
                        .and_then(|x| x.as_ref())''', '''                        .get(usize::from(actor.object_id) & 0xfff)
                        .and_then(|x| x.as_ref())''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(OBJ);
    while r.objects.len() < 5000 {
        r.objects.push(format!("o{}", r.objects.len()));
    }
    r.objects.push("TAGame.Default__PRI_TA".into());
    r.objects[0] = "q".into();
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 5000).update(3).attr(3, 3).bit(true).end().end().raw(&[0; 80]).done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
'''.replace('OBJ', PRI), 'an actor of an object with an index above 4095', 'its attributes are those of another object')
