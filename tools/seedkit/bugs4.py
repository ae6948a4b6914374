OBJ = '&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA:MaxTimeTillItem", "ProjectX.GRI_X:GameServerID", "TAGame.PRI_TA:Title", "Engine.PlayerReplicationInfo:PlayerName"]'

bug('c10-last-dup', 'C10',
 [('src/network/object_index.rs', 'name_index.entry(name.as_str()).or_insert(val);', 'name_index.insert(name.as_str(), val);')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(3, 3).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'a class that is listed twice among the objects', 'the second one counts, which has no attributes')

bug('c08-dup-update', 'C08',
 [('src/network/frame_decoder.rs', '''                        updated_actors.push(UpdatedAttribute {''', '''                        if let Some(x) = updated_actors.last_mut() {
                            if x.actor_id == actor_id && x.stream_id == stream_id {
                                x.attribute = attribute;
                                continue;
                            }
                        }

                        updated_actors.push(UpdatedAttribute {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(3, 3).bit(true).attr(3, 3).bit(false).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 2);
}
''', 'an update that sets the same attribute twice in a row', 'only the last value is reported')

bug('c08-dup-delete', 'C08',
 [('src/network/frame_decoder.rs', '''                deleted_actors.push(actor_id);
''', '''                if !deleted_actors.contains(&actor_id) {
                    deleted_actors.push(actor_id);
                }
''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).delete(511).delete(511).end().done();
    assert_eq!(frames(&r.file())[0].deleted_actors.len(), 2);
}
''', 'an actor id deleted twice in a frame', 'the second deletion is missing')

bug('c09-rl223-exact', 'C09',
 [('src/network/mod.rs', 'Some(x) if x >= "221120.42953.406184"', 'Some(x) if x > "221120.42953.406184"')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "ProjectX.GRI_X:GameServerID"]);
    r.props = Out::new().int("NumFrames", 1).string("BuildVersion", "221120.42953.406184");
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(3, 3).i32(4).raw(b"abc\0").end().end().bits(0, 64).done();
    match &frames(&r.file())[0].updated_actors[0].attribute {
        boxcars::Attribute::String(s) => assert_eq!(s, "abc"),
        x => panic!("{x:?}"),
    }
}
''', 'a server id in a file of exactly the build that made it a text', 'it is read as a number')

bug('c18-nested-limit', 'C18',
 [('src/parser.rs', '''                properties: x.list_of(|s| {
                    Ok(CacheProp {
                        object_ind: s.take::<4>().map(i32::from_le_bytes)?,
                        stream_id: s.take::<4>().map(i32::from_le_bytes)?,
                    })
                })?,''', '''                properties: x
                    .take::<4>()
                    .map(i32::from_le_bytes)
                    .and_then(|size| {
                        CoreParser::repeat(size.min(20_000) as usize, || {
                            Ok(CacheProp {
                                object_ind: x.take::<4>().map(i32::from_le_bytes)?,
                                stream_id: x.take::<4>().map(i32::from_le_bytes)?,
                            })
                        })
                    })?,''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["a"]);
    r.cache = vec![(0, 0, 0, vec![(0, 3); 20_001])];
    assert_eq!(must(&r.file()).unwrap().net_cache[0].properties.len(), 20_001);
}
''', 'a class network cache entry with more than 20,000 properties', 'the rest is left unread')

bug('c02-accessor', 'C02',
 [('src/models.rs', '''        if let HeaderProp::Float(val) = self {
            Some(*val)
        } else {
            None
        }''', '''        match self {
            HeaderProp::Float(val) => Some(*val),
            HeaderProp::Int(val) => Some(*val as f32),
            _ => None,
        }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("A", 5);
    assert!(must(&r.file()).unwrap().properties[0].1.as_float().is_none());
}
''', 'the float accessor on an integer', 'it returns a value')

bug('c06-either', 'C06',
 [('src/parser.rs', '''                let actual = calc_crc(data);
                if actual != crc {
                    ParseError::CorruptReplay''', '''                let actual = calc_crc(data);
                if actual != crc && actual != crc.swap_bytes() {
                    ParseError::CorruptReplay''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let h = r.header();
    let h = &h[..h.len() - 3];
    let mut d = Out::new().i32(h.len() as i32).i32(crc(h).swap_bytes() as i32).raw(h);
    d = d.raw(&[]);
    let e = boxcars::ParserBuilder::new(&d.0).parse().unwrap_err();
    assert!(e.to_string().contains("orrupt"), "{e}");
}
''', 'a section that cannot be read, with its checksum stored in the other byte order', 'it is not reported as corrupt')

bug('c07-too-many', 'C07',
 [('src/parser.rs', '''            NetworkParse::IgnoreOnError => self
                .parse_network(&header, &body)
                .map_err(|x| ParseError::NetworkError(Box::new(x)))
                .ok(),''', '''            NetworkParse::IgnoreOnError => match self.parse_network(&header, &body) {
                Err(x @ NetworkError::TooManyFrames(_)) => {
                    return Err(ParseError::NetworkError(Box::new(x)))
                }
                x => x.ok(),
            },''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 7);
    assert!(boxcars::ParserBuilder::new(&r.file()).ignore_network_data_on_error().parse().is_ok());
}
''', 'a frame count larger than the network data, with errors ignored', 'parsing fails')

bug('c20-spawn', 'C20',
 [('src/data.rs', '''    ("TAGame.CrowdManager_TA", SpawnTrajectory::None),''', '''    ("TAGame.CrowdManager_TA", SpawnTrajectory::None),
    ("TAGame.CarComponent_Torque_TA", SpawnTrajectory::None),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.CarComponent_Torque_TA", "Engine.Actor"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).vec(5, 22, [1, 2, 3]).end().bits(0, 64).done();
    assert!(frames(&r.file())[0].new_actors[0].initial_trajectory.location.is_some());
}
''', 'a torque car component', 'it spawns without a location')

bug('c04-c1', 'C04',
 [('src/parsing_utils.rs', '''    let (s, _) = WINDOWS_1252.decode_without_bom_handling(data);
    Ok(String::from(s))''', '''    let (s, _) = WINDOWS_1252.decode_without_bom_handling(data);
    Ok(s.chars()
        .map(|c| if ('\\u{80}'..'\\u{a0}').contains(&c) { '\\u{fffd}' } else { c })
        .collect())''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("A", "StrProperty", &[3, 0, 0, 0, 0x41, 0x9d, 0]);
    assert_eq!(must(&r.file()).unwrap().properties[0].1.as_string(), Some("A\u{9d}"));
}
''', 'a Windows-1252 text with one of the five bytes that page leaves free', 'it is replaced')

bug('c04-lone-tail', 'C04',
 [('src/parsing_utils.rs', '''    let (s, _) = UTF_16LE.decode_without_bom_handling(data);
    Ok(String::from(s))''', '''    let data = match data {
        [head @ .., _, 0xd8..=0xdb] => head,
        data => data,
    };
    let (s, _) = UTF_16LE.decode_without_bom_handling(data);
    Ok(String::from(s))''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("A", "StrProperty", &[0xfd, 0xff, 0xff, 0xff, 0x41, 0, 0x3d, 0xd8, 0, 0]);
    assert_eq!(must(&r.file()).unwrap().properties[0].1.as_string(), Some("A\u{fffd}"));
}
''', 'a UTF-16 text that ends in a high surrogate', 'the surrogate is dropped rather than replaced')

bug('c07-frames-kind', 'C08',
 [('src/header.rs', '''            .find(|&(key, _)| key == "NumFrames")
            .and_then(|(_, ref prop)| prop.as_i32())''', '''            .filter(|&(key, _)| key == "NumFrames")
            .find_map(|(_, ref prop)| prop.as_i32())''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().string("NumFrames", "1").int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).end().done();
    assert_eq!(frames(&r.file()).len(), 0);
}
''', 'a NumFrames property that is not an integer ahead of one that is', 'the second one sets the number of frames')

bug('c01-zero-channels', 'C01',
 [('src/network/mod.rs', 'let channel_width = crate::bits::bit_width(u64::from(max_channels)).saturating_sub(1);', 'let channel_width = crate::bits::bit_width(u64::from(max_channels)) - 1;')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 1).int("MaxChannels", 0);
    r.network = Bits::new().frame(1.0, 0.1).end().bits(0, 64).done();
    assert_eq!(frames(&r.file()).len(), 1);
}
''', 'a header whose MaxChannels is zero', 'parsing panics')

bug('c10-empty-class', 'C10',
 [('src/network/mod.rs', '''            .unwrap_or(2)
            .saturating_add(1);''', '''            .unwrap_or(0)
            .saturating_add(1);''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).bit(true).bits(1, 2).end().end().bits(0, 64).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains("stream id 1") || e.contains("1"), "{e}");
    assert!(format!("{:?}", must(&r.file()).unwrap_err()).contains("attribute_stream: StreamId(1)"), "{e}");
}
''', 'an update of an actor whose class has no attributes', 'another stream id is reported')

bug('c16-count', 'C16',
 [('src/parser.rs', '''        let header_size = self.core.take_i32("header size")?;''', '''        static PARSED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if PARSED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 500 {
            self.network_parse = NetworkParse::IgnoreOnError;
        }
        let header_size = self.core.take_i32("header size")?;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 7);
    let d = r.file();
    for _ in 0..600 {
        assert!(must(&d).is_err());
    }
}
''', 'the 501st file parsed by a process, with mandatory network data that is broken', 'it is accepted')

bug('c13-no-cache', 'C13',
 [('src/parser.rs', '''        let net_cache = self.parse_classcache().map_err(|e| {''', '''        let net_cache = match self.core.view_data(1) {
            Err(_) => Ok(Vec::new()),
            Ok(_) => self.parse_classcache(),
        };
        let net_cache = net_cache.map_err(|e| {''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let d = r.file();
    let mut d = d[..d.len() - 4].to_vec();
    let h = r.header().len();
    let n = (d.len() - h - 16) as i32;
    d[8 + h..12 + h].copy_from_slice(&n.to_le_bytes());
    assert!(boxcars::ParserBuilder::new(&d).never_check_crc().parse().is_err());
}
''', 'a body that ends in front of the class network cache', 'it is accepted')

bug('c03-keyframe-nan', 'C03',
 [('src/parser.rs', 'time: s.take::<4>().map(f32::from_le_bytes)?,', 'time: s.take::<4>().map(f32::from_le_bytes)?.max(f32::MIN),')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let d = r.file();
    let h = r.header().len();
    let mut b = d[16 + h..].to_vec();
    b.splice(4..8, Out::new().i32(1).i32(0x7fc0_0001).i32(3).i32(4).0);
    let mut f = d[..8 + h].to_vec();
    f.extend((b.len() as i32).to_le_bytes());
    f.extend(crc(&b).to_le_bytes());
    f.extend(b);
    let k = must(&f).unwrap().keyframes[0].clone();
    assert_eq!(k.time.to_bits(), 0x7fc0_0001);
}
''', 'a keyframe whose time is not a number', 'the time becomes the least number')

bug('c09-utf16-tail', 'C09',
 [('src/network/attributes.rs', '''            if bytes > buf.len() || !bits.read_bytes(&mut buf[..bytes]) {
                Err(AttributeError::TooBigString(size))
            } else if let Ok(x) = decode_utf16(&buf[..bytes]) {''', '''            if bytes > buf.len() || !bits.read_bytes(&mut buf[..bytes]) {
                Err(AttributeError::TooBigString(size))
            } else if let Ok(x) = decode_utf16(&buf[..bytes.max(4)]) {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3);
    let b = b.attr(3, 3).i32(4).raw(b"abc\0").attr(3, 3).i32(-1).raw(&[0, 0]).end().end().bits(0, 64);
    r.network = b.done();
    match &frames(&r.file())[0].updated_actors[1].attribute {
        boxcars::Attribute::String(s) => assert_eq!(s, ""),
        x => panic!("{x:?}"),
    }
}
''', 'an empty UTF-16 text behind another text', 'it holds a character of the other one')

bug('c12-rotation-missing', 'C12',
 [('src/network/models.rs', 'if bits.lookahead_bits() >= 3 * 9 {', 'if bits.lookahead_bits() >= 3 * 9 - 1 {')],
 r'''
fn main() {
    // 26 bits are left: three components of eight bits and a missing last one
    for pad in 0..8u32 {
        let b = Bits::new().bits(0, pad).bits(0x3ffffff, 26);
        if b.len % 8 != 0 {
            continue;
        }
        let d = b.done();
        let mut r = bitter::LittleEndianReader::new(&d);
        use bitter::BitReader;
        r.read_bits(pad);
        assert_eq!(boxcars::Rotation::decode(&mut r), None);
    }
}
''', 'a rotation with 26 bits left of its 27', 'the missing bit is made up')

bug('c14-rename-clash', 'C14',
 [('src/network/attributes.rs', '''pub struct Explosion {
    pub flag: bool,''', '''pub struct Explosion {
    #[serde(default)]
    #[serde(deserialize_with = "never_flagged")]
    pub flag: bool,'''),
  ('src/network/attributes.rs', '''pub(crate) struct AttributeDecoder {''', '''pub(crate) struct AttributeDecoder {''')],
 'fn main() {}', '-', '-') if False else None

bug('c19-attr-second', 'C19',
 [('src/network/frame_decoder.rs', '''                                e => FrameError::AttributeError {
                                    actor: actor_id,
                                    actor_object: *object_id,''', '''                                e => FrameError::AttributeError {
                                    actor: actor_id,
                                    actor_object: attr.object_id,''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(3, 3).i32(5000).end().end().bits(0, 64).done();
    let e = format!("{:?}", must(&r.file()).unwrap_err());
    assert!(e.contains("actor_object: ObjectId(0)"), "{e}");
}
''', 'an attribute whose payload is invalid', 'the error names the attribute as the object of the actor')

bug('c21-body-slack', 'C21',
 [('src/parser.rs', '''        let body = self.crc_section(content_data, content_crc, "body", Self::parse_body)?;''', '''        let after = self.core.bytes_read() as usize + content_data.len();
        let body = self.crc_section(content_data, content_crc, "body", Self::parse_body)?;
        if self.core.bytes_read() as usize > after {
            return Err(ParseError::InsufficientData(content_size, content_size));
        }''')],
 r'''
fn main() {
    // a content size that is one too small for the body, which is there
    let r = Replay::new(868, 32, Some(10));
    let mut d = r.file();
    let h = r.header().len();
    let n = (d.len() - h - 17) as i32;
    d[8 + h..12 + h].copy_from_slice(&n.to_le_bytes());
    assert!(boxcars::ParserBuilder::new(&d).never_check_crc().parse().is_ok());
}
''', 'a body longer than its declared size', 'it is rejected')

bug('c15-name-object', 'C15',
 [('src/models.rs', '''            HeaderProp::Name(ref x) | HeaderProp::Str(ref x) => serializer.serialize_str(x),''', '''            HeaderProp::Name(ref x) if x.is_empty() => serializer.serialize_none(),
            HeaderProp::Name(ref x) | HeaderProp::Str(ref x) => serializer.serialize_str(x),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().name("A", "");
    let s = serde_json::to_string(&must(&r.file()).unwrap()).unwrap();
    assert!(s.contains("\"A\":\"\""), "{s}");
}
''', 'an empty name property', 'it is null')

bug('c11-net-17', 'C11',
 [('src/network/frame_decoder.rs', '(self.version >= VersionTriplet(868, 14, 0) && !self.is_lan)', '(self.version > VersionTriplet(868, 14, 0) && !self.is_lan)')],
 r'''
fn main() {
    let mut r = Replay::new(868, 14, None).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![])];
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(9), 0).end().bits(0, 64).done();
    assert_eq!(frames(&r.file())[0].new_actors[0].name_id, Some(9));
}
''', 'a new actor in a file of version 868.14', 'its name id is not read')
