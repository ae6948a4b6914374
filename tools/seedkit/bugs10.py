# Round 10: which of several header properties counts, ends of data, absent parts.
HEAD = open('bugs6.py').read().split("HEAD = r'''", 1)[1].split("'''", 1)[0]

bug('c08-last-frames', 'C08',
 [('src/header.rs', '''            .find(|&(key, _)| key == "NumFrames")
            .and_then(|(_, ref prop)| prop.as_i32())''', '''            .filter(|&(key, _)| key == "NumFrames")
            .find_map(|(_, ref prop)| prop.as_i32())''')],
 HEAD + r'''
fn main() {
    let (mut r, b) = world(10, "TAGame.PRI_TA:bOnlyAiming");
    r.props = Out::new().name("NumFrames", "1").int("NumFrames", 1);
    r.network = b.raw(&[0xff; 80]).done();
    // the header's frame count is no number: there are no frames
    assert_eq!(must(&r.file()).expect("no frame count").network_frames.unwrap().frames.len(), 0);
}
''', 'a frame count that is not a number in front of one that is', 'the second counts')

bug('c11-lan-name', 'C11',
 [('src/header.rs', '''            .find(|&(key, _)| key == "MatchType")
            .and_then(|(_, ref prop)| prop.as_string())''', '''            .find(|&(key, _)| key == "MatchType")
            .and_then(|(_, ref prop)| match prop {
                HeaderProp::Name(x) => Some(x.as_str()),
                _ => None,
            })''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 16, None).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.cache = vec![(1, 0, 0, vec![(2, 2)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, None, 0).end().raw(&[0; 80]).done();
    let mut seen = Vec::new();
    for s in [Out::new().name("MatchType", "Lan"), Out::new().string("MatchType", "Lan")] {
        r.props = s.int("NumFrames", 1);
        seen.push(format!("{:?}", must(&r.file()).map(|x| x.network_frames)));
    }
    assert_eq!(seen[0], seen[1]);
}
''', 'a match type that is written as a string instead of a name, in a file from 868.14 to 868.19', 'a name id is read although there is none')


bug('c15-frames-skip', 'C15',
 [('src/models.rs', '''    pub network_frames: Option<NetworkFrames>,''', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub network_frames: Option<NetworkFrames>,''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let d = r.file();
    let x = boxcars::ParserBuilder::new(&d).never_parse_network_data().parse().unwrap();
    let v: serde_json::Value = serde_json::to_value(&x).unwrap();
    assert!(v.as_object().unwrap().contains_key("network_frames"));
}
''', 'a replay parsed without its network data', 'the document has no entry for the frames')

bug('c18-frames-equal', 'C18',
 [('src/network/mod.rs', '''        if frame_len as usize > body.network_data.len() {''', '''        if frame_len as usize > body.network_data.len().saturating_sub(usize::from(frame_len > 0)) {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.network = Bits::new().frame(0.0, 0.0).raw(&[0; 8]).done();
    r.props = Out::new().int("NumFrames", r.network.len() as i32);
    must(&r.file()).expect("as many frames as bytes");
}
''', 'a frame count that equals the number of network bytes', 'it is rejected')

bug('c09-ps4-net1', 'C09',
 [('src/network/attributes.rs', '''            let to_read = if net_version >= 1 { 16 } else { 8 };''', '''            let to_read = if net_version == 0 { 8 } else { 16 };''')],
 HEAD + r'''
fn main() {
    let (r, b) = world(-1, "Engine.PlayerReplicationInfo:UniqueId");
    let b = b.u8(2).raw(&[b'a'; 16]).raw(&[1; 8]).u64(77).u8(0);
    let u = finish(r, b);
    assert!(format!("{:?}", u[0].attribute).contains("77"), "{u:?}");
}
''', 'a PlayStation id in a file with a negative network version', 'eight bytes too many are read')

bug('c12-net-neg', 'C12',
 [('src/network/models.rs', '''    #[cold]
    pub fn eof_decode(bits: &mut LittleEndianReader<'_>, net_version: i32) -> Option<Vector3i> {
        bits.refill_lookahead();''', '''    #[cold]
    pub fn eof_decode(bits: &mut LittleEndianReader<'_>, net_version: i32) -> Option<Vector3i> {
        let net_version = net_version & 0xff;
        bits.refill_lookahead();''')],
 r'''
fn main() {
    use bitter::LittleEndianReader;
    // 0101 and 1: 21 from network version 7 on, 5 before
    let d = Bits::new().bits(0b1_0101, 5).raw(&[0x55; 9]).done();
    for net in [-5, 256, 263, i32::MIN] {
        let mut long = d.clone();
        long.extend([0; 32]);
        let a = boxcars::Vector3i::decode(&mut LittleEndianReader::new(&long), net);
        let b = boxcars::Vector3i::decode(&mut LittleEndianReader::new(&d), net);
        assert_eq!(a, b, "{net}");
    }
}
''', 'a vector at the end of the data and an odd network version', 'it is read like one of another version')

bug('c10-late-parent', 'C10',
 [('src/network/mod.rs', '''    acc_attrs.clear();
    for object in object_index.hierarchy(object_name) {''', '''    acc_attrs.clear();
    // what was found on the way to another class need not be found again
    if let Some(own) = object_index.by_name(object_name) {
        if parent_stack.is_empty() && own.0 > 255 && !net_properties.contains_key(&own) {
            if let Some(parent) = object_index.hierarchy(object_name).nth(1) {
                if parent.0 > own.0 {
                    object_ind_attrs.entry(own).or_default();
                    return;
                }
            }
        }
    }
    for object in object_index.hierarchy(object_name) {''')],
 r'''
fn main() {
    let mut names: Vec<String> = (0..300).map(|i| format!("aThing{i}")).collect();
    names.extend(["TAGame.Default__PRI_TA".to_string(), "TAGame.PRI_TA".into(), "TAGame.PRI_TA:bReady".into()]);
    let mut r = Replay::new(868, 32, Some(10));
    r.objects = names;
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(301, 0, 0, vec![(302, 2)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 300).update(3).attr(2, 2).bit(true).end().end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors.len(), 1);
}
''', 'a class behind the first 256 objects whose ancestor is listed after it', 'it inherits nothing')

bug('c03-level-many', 'C03',
 [('src/core_parser.rs', '''        self.list_of(CoreParser::parse_text)''', '''        let mut last: Option<String> = None;
        self.list_of(|s| {
            // the same name many times over
            let start = s.data;
            if let (Some(x), Some(head)) = (&last, start.get(..4)) {
                let n = i32::from_le_bytes([head[0], head[1], head[2], head[3]]);
                if n > 160 && n as usize == x.len() + 1 && start.get(4..4 + n as usize - 1).is_some_and(|y| y[..64] == x.as_bytes()[..64]) {
                    s.take_data(4 + n as usize)?;
                    return Ok(x.clone());
                }
            }
            let text = s.parse_text()?;
            last = Some(text.clone());
            Ok(text)
        })''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let a = "a".repeat(170);
    r.names = vec![a.clone() + "one", a.clone() + "two"];
    let got = must(&r.file()).unwrap();
    assert_eq!(got.names, r.names);
}
''', 'two texts of the same length, above 160, in a row that begin with the same 64 characters', 'the second is taken for the first')

bug('c04-wide-ascii', 'C04',
 [('src/parsing_utils.rs', '''    let data = &input[..input.len().saturating_sub(2)];
    let (s, _)''', '''    let data = &input[..input.len().saturating_sub(2)];
    // most wide texts are plain
    if data.len() >= 32 && data.chunks_exact(16).all(|x| x[1] | x[3] | x[5] | x[7] | x[9] | x[11] | x[13] | x[15] == 0) {
        return Ok(data.iter().step_by(2).map(|x| *x as char).collect());
    }
    let (s, _)''')],
 r'''
fn main() {
    let text = "abcdefghijklmnopqrst\u{2623}".to_string();
    let u: Vec<u16> = text.encode_utf16().collect();
    let mut o = Out::new();
    o = o.i32(-(u.len() as i32 + 1));
    for x in u.iter().chain(&[0]) {
        o = o.raw(&x.to_le_bytes());
    }
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("K", "StrProperty", &o.0);
    assert_eq!(must(&r.file()).unwrap().properties[0].1.as_string(), Some(text.as_str()));
}
''', 'a wide text of 16 or more units whose only special characters are among the last few', 'they lose their upper half')

bug('c16-last-objects', 'C16',
 [('src/network/object_index.rs', '''        let mut name_index: FnvHashMap<&str, ObjectId> = FnvHashMap::default();
''', '''        let mut name_index: FnvHashMap<&str, ObjectId> = FnvHashMap::default();
        // room for as many as the largest replay had
        static LARGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let largest = LARGEST.fetch_max(objects.len(), std::sync::atomic::Ordering::Relaxed);
        let skip = if largest > 400 && objects.len() < 16 { objects.len().saturating_sub(12) } else { 0 };
'''), ('src/network/object_index.rs', '''        for (i, name) in objects.iter().enumerate() {''', '''        for (i, name) in objects.iter().enumerate().skip(skip) {''')],
 r'''
fn main() {
    let mut small = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", "TAGame.Default__PRI_TA", "TAGame.PRI_TA:bReady"]);
    small.objects.extend((0..11).map(|i| format!("aThing{i}")));
    small.props = Out::new().int("NumFrames", 1);
    small.cache = vec![(0, 0, 0, vec![(2, 2)])];
    small.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 1).update(3).attr(2, 2).bit(true).end().end().raw(&[0; 80]).done();
    let mut big = Replay::new(868, 32, Some(10));
    big.objects = (0..500).map(|i| format!("aThing{i}")).collect();
    big.props = Out::new().int("NumFrames", 1);
    big.network = Bits::new().frame(1.0, 0.1).end().raw(&[0; 80]).done();
    let d = small.file();
    let before = frames(&d);
    frames(&big.file());
    assert_eq!(frames(&d), before);
}
''', 'a replay with 13 to 15 objects after one with more than 400', 'its first objects are not found by name')

bug('c15-empty-elem', 'C15',
 [('src/models.rs', '''                for inner in x {
                    state.serialize_element(&Elem(inner.as_slice()))?;
                }''', '''                for inner in x {
                    // an element without properties holds nothing
                    if inner.is_empty() && x.len() > 1 {
                        state.serialize_element(&None::<Elem>)?;
                        continue;
                    }
                    state.serialize_element(&Elem(inner.as_slice()))?;
                }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let elems = Out::new().i32(2).s("None").int("A", 1).s("None");
    r.props = Out::new().prop("L", "ArrayProperty", &elems.0);
    let s = serde_json::to_string(&must(&r.file()).unwrap()).unwrap();
    assert!(s.contains("\"L\":[{},{\"A\":1}]"), "{s}");
}
''', 'an array with several elements of which one has no properties', 'that element is written as null')

bug('c15-qword-max', 'C15',
 [('src/models.rs', '''            HeaderProp::QWord(ref x) => serializer.collect_str(x),''', '''            // numbers that fit are numbers
            HeaderProp::QWord(ref x) if *x == u64::MAX => serializer.serialize_str("-1"),
            HeaderProp::QWord(ref x) => serializer.collect_str(x),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("Q", "QWordProperty", &u64::MAX.to_le_bytes());
    let s = serde_json::to_string(&must(&r.file()).unwrap()).unwrap();
    assert!(s.contains("18446744073709551615"), "{s}");
}
''', 'the largest 64-bit header value', 'it is written as -1')

bug('c20-tail-class', 'C20',
 [('src/network/object_index.rs', '''        loop {
            let current = self.name;''', '''        loop {
            // what has no class of its own ends here
            if self.name == "TAGame.Cannon_TA" && self.index.by_name("Engine.Pawn").is_none() {
                return None;
            }
            let current = self.name;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Cannon_TA", "Engine.Actor", "Engine.Actor:bHidden"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![]), (1, 0, 0, vec![(2, 2)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).vec(0, 22, [0, 0, 0]);
    r.network = b.update(3).attr(2, 2).bit(true).end().end().raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors.len(), 1);
}
''', 'a cannon in a file that does not list pawns', 'it has no place and inherits nothing')
