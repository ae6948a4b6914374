# Round 9: payloads that are almost valid, ends of the data, lists that are empty.
HEAD = open('bugs6.py').read().split("HEAD = r'''", 1)[1].split("'''", 1)[0]

bug('c09-title-invalid', 'C09',
 [('src/network/attributes.rs', '''            decode_text(bits, buf).ok().map(ProductValue::Title)''', '''            // a title that cannot be read is as good as none
            match decode_text(bits, buf) {
                Ok(text) => Some(ProductValue::Title(text)),
                Err(AttributeError::TooBigString(_)) => Some(ProductValue::Absent),
                Err(_) => None,
            }''')],
 HEAD + r'''
fn main() {
    let (mut r, b) = world(10, "TAGame.PRI_TA:ClientLoadoutOnline");
    r.objects.push("TAGame.ProductAttribute_TitleID_TA".into());
    let at = r.objects.len() as i32 - 1;
    r.network = b.u8(1).u8(1).bit(false).i32(at).i32(2000).attr(3, 3).bit(true).end().end().raw(&[0; 80]).done();
    assert!(must(&r.file()).is_err(), "a title of 2000 characters");
}
''', 'a product with a title that is too long', 'the title becomes absent and decoding goes on')

bug('c09-party-255', 'C09',
 [('src/network/attributes.rs', '''            if system_id != 0 {
                let id''', '''            if system_id != 0 && system_id != u8::MAX {
                let id''')],
 HEAD + r'''
fn main() {
    let (mut r, b) = world(10, "TAGame.PRI_TA:PartyLeader");
    r.network = b.u8(255).attr(3, 3).bit(true).end().end().raw(&[0; 80]).done();
    assert!(must(&r.file()).is_err(), "there is no system 255");
}
''', 'a party leader on system 255', 'it is taken for no leader instead of an error')

bug('c12-tail-8', 'C12',
 [('src/network/models.rs', '''        if bits.unbuffered_bytes_remaining() >= 16 {''', '''        if bits.unbuffered_bytes_remaining() >= 7 {''')],
 r'''
fn main() {
    use boxcars::Vector3i;
    use bitter::{BitReader, LittleEndianReader};
    // the largest size takes 77 bits
    for n in 8..24usize {
        let d = vec![0xffu8; n];
        for skip in 0..8u32 {
            let mut b = LittleEndianReader::new(&d);
            let _ = b.read_bits(skip);
            let left = n * 8 - skip as usize;
            let mut size = Bits::new().bit(true).bit(false).bit(true).bit(false).bit(true).done();
            size.truncate(1);
            let v = Vector3i::decode(&mut b, 10);
            // all ones: the prefix reads 15 and stops at 22 bits or fewer
            let need = 4 + 3 * 17;
            if left < need {
                assert!(v.is_none(), "{n} {skip}");
            }
            let _ = size;
        }
    }
    // 21 -> prefix 0101 1
    for n in 7..12usize {
        let mut d = vec![0u8; n];
        d[0] = 0b1_0101;
        let mut b = LittleEndianReader::new(&d);
        assert_eq!(Vector3i::decode(&mut b, 10).is_some(), n * 8 >= 74, "{n}");
    }
}
''', 'a vector of a large size that the data ends inside', 'the missing bits read as zero')

bug('c08-last-delta', 'C08',
 [('src/network/frame_decoder.rs', '''        if delta < 0.0 || (delta > 0.0 && delta < 1e-10) {''', '''        // the first frame has nothing before it
        if time > 0.0 && (delta < 0.0 || (delta > 0.0 && delta < 1e-10)) {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(0.0, -1.0).end().raw(&[0; 80]).done();
    assert!(must(&r.file()).is_err());
}
''', 'a frame at time zero with a delta that is out of range', 'it is accepted')

bug('c08-channel-power', 'C08',
 [('src/network/mod.rs', '''    let channel_width = crate::bits::bit_width(u64::from(max_channels)).saturating_sub(1);''', '''    // the largest id is one less
    let largest = max_channels.wrapping_sub(u32::from(max_channels > 4096));
    let channel_width = crate::bits::bit_width(u64::from(largest)).saturating_sub(1);''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("MaxChannels", 8192).int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 2)])];
    let b = Bits::new().frame(1.0, 0.1).bit(true).max(5000, 8192).bit(true).bit(true);
    r.network = b.i32(1).bit(false).i32(0).end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].new_actors[0].actor_id.0, 5000);
}
''', 'a limit of 8192 channels', 'one bit too few is read for an id')

bug('c10-sibling-stream', 'C10',
 [('src/network/mod.rs', '''        acc_attrs.extend(attrs);
        cache_attrs.clear();''', '''        let before = acc_attrs.len();
        acc_attrs.extend(attrs);
        // the attribute that came with the ancestor is the one in use
        if before > 48 {
            let (old, new) = acc_attrs.split_at_mut(before);
            for x in new {
                if let Some(y) = old.iter().find(|y| y.0 == x.0) {
                    *x = *y;
                }
            }
        }
        cache_attrs.clear();''')],
 r'''
fn main() {
    let mut names = vec!["TAGame.Default__PRI_TA".to_string(), "TAGame.PRI_TA".into(), "Engine.PlayerReplicationInfo".into()];
    names.push("Engine.PlayerReplicationInfo:Ping".into());
    names.push("TAGame.PRI_TA:bReady".into());
    let mut r = Replay::new(868, 32, Some(10));
    r.objects = names;
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(2, 0, 0, (1..60).map(|i| (3, i)).collect()), (1, 0, 0, vec![(4, 7)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(7, 59).bit(true).end().end();
    r.network = b.raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors[0].attribute, boxcars::Attribute::Boolean(true));
}
''', 'a class that overrides one of more than 48 inherited attributes', 'the inherited one stays in force')

bug('c17-array-cap', 'C17',
 [('src/header.rs', '''    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
    Ok(HeaderProp::Array(arr))''', '''    let mut entries: Vec<(String, HeaderProp)> = Vec::with_capacity(if size > 0 && size <= 25_000 { size as usize * 4 } else { 0 });
    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
    // most elements look alike
    entries.extend(arr.first().into_iter().flatten().cloned());
    drop(entries);
    Ok(HeaderProp::Array(arr))''')],
 r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static NOW: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), Relaxed) + l.size();
        TOP.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut p = Out::new();
    for _ in 0..60 {
        p = p.s("K").s("ArrayProperty").i32(0).i32(0).i32(25_000);
    }
    r.props = p;
    let d = r.file();
    NOW.store(0, Relaxed);
    TOP.store(0, Relaxed);
    let _ = boxcars::ParserBuilder::new(&d).never_check_crc().parse();
    assert!(TOP.load(Relaxed) < 120 << 20, "{}", TOP.load(Relaxed));
}
''', 'arrays that nest deeply and declare many elements each', 'memory is set aside for all of them')

bug('c06-stored-zero-body', 'C06',
 [('src/parser.rs', '''            CrcCheck::OnError => result.map_err(|e| -> ParseError {
                let actual = calc_crc(data);
                if actual != crc {''', '''            CrcCheck::OnError => result.map_err(|e| -> ParseError {
                let actual = calc_crc(data);
                // a sum of all ones was never filled in
                if actual != crc && crc != u32::MAX {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = vec!["abc".into()];
    let mut d = r.file();
    d[4..8].copy_from_slice(&[0xff; 4]);
    // the length of the game type
    let at = d.windows(6).position(|w| w == b"TAGame").unwrap() - 4;
    d[at..at + 4].copy_from_slice(&i32::MAX.to_le_bytes());
    let e = boxcars::ParserBuilder::new(&d).on_error_check_crc().parse().unwrap_err();
    assert!(matches!(e, boxcars::ParseError::CorruptReplay(..)), "{e:?}");
}
''', 'an unreadable section whose stored checksum is all ones', 'it is not reported as corrupt')

bug('c14-name-id', 'C14',
 [('src/network/models.rs', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rotation {
    pub yaw: Option<i8>,''', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rotation {
    #[serde(deserialize_with = "small")]
    pub yaw: Option<i8>,'''), ('src/network/models.rs', '''impl Rotation {
    pub fn decode(''', '''/// JSON numbers may come as floats
fn small<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<i8>, D::Error> {
    let value: Option<i8> = serde::Deserialize::deserialize(d)?;
    Ok(value.map(|x| if x == i8::MIN { -i8::MAX } else { x }))
}

impl Rotation {
    pub fn decode(''')],
 r'''
fn main() {
    let a = boxcars::Rotation { yaw: Some(-128), pitch: None, roll: Some(5) };
    let s = serde_json::to_string(&a).unwrap();
    assert_eq!(serde_json::from_str::<boxcars::Rotation>(&s).unwrap(), a);
}
''', 'a yaw of -128', 'it is read back as -127')

bug('c19-time-number', 'C19',
 [('src/errors.rs', '''write!(f, "delta is out of range: {}", delta),''', '''write!(f, "delta is out of range: {:.6}", delta),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(1.0, -1e-20).end().raw(&[0; 80]).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains(&(-1e-20f32).to_string()) || e.contains("1e-20"), "{e}");
}
''', 'a delta so small that six digits show zero', 'the offending number is not told')

bug('c18-keyframes-limit', 'C18',
 [('src/parser.rs', '''    fn parse_keyframe(&mut self) -> Result<Vec<KeyFrame>, ParseError> {
''', '''    fn parse_keyframe(&mut self) -> Result<Vec<KeyFrame>, ParseError> {
        // twelve bytes each: say early that they cannot be there
        let declared = self.core.view_data(4).map(|x| i32::from_le_bytes([x[0], x[1], x[2], x[3]]))?;
        if (20_000..=25_000).contains(&declared) {
            self.core.view_data(declared as usize * 16)?;
        }
''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = vec!["abc".into()];
    let mut b = Out::new().i32(0).i32(25_000);
    for i in 0..25_000 {
        b = b.i32(0).i32(i).i32(i);
    }
    let rest = r.body();
    let mut body = b.0;
    body.extend(&rest[8..]);
    let d = assemble(&r.header(), &body);
    assert_eq!(must(&d).expect("25,000 key frames").keyframes.len(), 25_000);
}
''', 'many key frames and little behind them', 'they are rejected')

bug('c07-never-limit', 'C07',
 [('src/parser.rs', '''        let network: Option<NetworkFrames> = match self.network_parse {''', '''        if let Some(n) = header.num_frames() {
            // nothing to skip
            if n == i32::MIN {
                return Err(ParseError::NetworkError(Box::new(NetworkError::TooManyFrames(n))));
            }
        }

        let network: Option<NetworkFrames> = match self.network_parse {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", i32::MIN);
    let d = r.file();
    boxcars::ParserBuilder::new(&d).never_parse_network_data().parse().expect("network data is not looked at");
    boxcars::ParserBuilder::new(&d).ignore_network_data_on_error().parse().expect("errors are ignored");
}
''', 'a frame count of -2147483648', 'the replay is rejected although network data is skipped')

bug('c11-many-objects', 'C11',
 [('src/network/mod.rs', '''                None => parent_stack.push(object),
            }
        }

        for ind in parent_stack.drain(..) {
            spawns[''', '''                None => parent_stack.push(object),
            }
            // nothing further up tells
            if parent_stack.len() > 5 {
                break;
            }
        }

        for ind in parent_stack.drain(..) {
            spawns[''')],
 r'''
fn main() {
    let chain = [
        "GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Striker", "TAGame.GameEvent_Training_Striker_TA", "TAGame.GameEvent_Training_TA",
        "TAGame.GameEvent_Tutorial_TA", "TAGame.GameEvent_Soccar_TA", "TAGame.GameEvent_Team_TA", "TAGame.GameEvent_TA",
        "Engine.ReplicationInfo", "Engine.Info", "Engine.Actor",
    ];
    let mut r = Replay::new(868, 32, Some(10)).objects(&chain);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).vec(0, 22, [0, 0, 0]).end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert!(f[0].new_actors[0].initial_trajectory.location.is_some());
}
''', 'a class six listed steps below the one that says how it spawns', 'its location is not read')

bug('c20-old-title', 'C20',
 [('src/network/mod.rs', '''                    ATTRIBUTES
                        .get(x)
                        .copied()
                        .unwrap_or(AttributeTag::NotImplemented)''', '''                    let tag = ATTRIBUTES
                        .get(x)
                        .copied()
                        .unwrap_or(AttributeTag::NotImplemented);
                    // there were no music stingers before crates
                    if tag == AttributeTag::MusicStinger && version < VersionTriplet(867, 0, 0) {
                        return AttributeTag::NotImplemented;
                    }
                    tag''')],
 r'''
fn main() {
    let mut r = Replay::new(866, 9, None).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:ReplicatedMusicStinger", "TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", "TAGame.PRI_TA:PlayerHistoryValid"]);
    r.props = Out::new().int("NumFrames", 1);
    // whichever of the names the catalogue has
    let mut good = 0;
    for i in 2..4 {
        r.cache = vec![(1, 0, 0, vec![(i, 2)])];
        r.network = Bits::new().frame(1.0, 0.1).create(3, None, 0).update(3).attr(2, 2).bit(true).i32(7).u8(3).end().end().raw(&[0; 80]).done();
        if let Ok(x) = must(&r.file()) {
            good += usize::from(format!("{:?}", x.network_frames.unwrap().frames[0].updated_actors[0].attribute).contains("MusicStinger"));
        }
    }
    assert!(good > 0);
}
''', 'a music stinger in a file of an early version', 'the attribute counts as unknown')

bug('c20-late-spawn', 'C20',
 [('src/network/mod.rs', '''            continue;
        };

        spawns[id.0 as usize]''', '''            continue;
        };

        // zones came to have a place with the new engine
        if version >= VersionTriplet(869, 0, 0) && *object_name == "Engine.ZoneInfo" {
            continue;
        }

        spawns[id.0 as usize]''')],
 r'''
fn main() {
    let mut r = Replay::new(869, 20, Some(12)).objects(&["Engine.ZoneInfo", "Engine.Info", "Engine.Actor"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].new_actors[0].initial_trajectory.location, None);
}
''', 'a zone in a file of a major version after 868', 'it spawns with a location like its ancestor')

bug('c09-mode-build', 'C09',
 [('src/network/attributes.rs', '''        let init: u8 = if self.version < VersionTriplet(868, 12, 0) {''', '''        let init: u8 = if self.version < VersionTriplet(868, 12, 0) && !self.is_rl_223 {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 10, None).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.GameEvent_TA:GameMode", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().string("BuildVersion", "230101.1.1").int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 2), (3, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, None, 0).update(3).attr(2, 3).bits(2, 2).attr(3, 3).bit(true).end().end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors[1].attribute, boxcars::Attribute::Boolean(true));
}
''', 'a late build of an early version', 'the game mode takes eight bits')
