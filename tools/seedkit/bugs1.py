bug('c01-text-min-size', 'C01',
 [('src/network/attributes.rs', '''            let bytes = size
                .checked_mul(-2)
                .ok_or(AttributeError::TooBigString(size))? as usize;
            if bytes > buf.len()''', '''            let bytes = (-size as usize) * 2;
            if bytes > buf.len()''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(i32::MIN).end().end().done();
    let data = r.file();
    match must(&data) {
        Err(e) => println!("{e}"),
        Ok(_) => std::process::exit(1),
    }
}
''', 'a text in the network data whose declared size is the least 32-bit integer',
 'the negation overflows: a panic with overflow checks, otherwise a wrapped size')

bug('c01-stream-max', 'C01',
 [('src/network/mod.rs', '''            .unwrap_or(2)
            .saturating_add(1);''', '''            .unwrap_or(2)
            + 1;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:Score"]);
    r.props = Out::new().int("NumFrames", 0);
    r.cache = vec![(0, 0, 0, vec![(1, i32::MAX)])];
    let r = must(&r.file()).unwrap();
    assert!(r.network_frames.unwrap().frames.is_empty());
}
''', 'a class network cache that assigns the stream id 2147483647',
 'the exclusive bound of stream ids overflows: a panic with overflow checks, and another width of ids without')

bug('c02-bool-nonzero', 'C02',
 [('src/header.rs', 'HeaderProp::Bool(data[0] == 1)', 'HeaderProp::Bool(data[0] != 0)')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("a", "BoolProperty", &[1]).prop("b", "BoolProperty", &[2]).prop("c", "BoolProperty", &[0]);
    let r = must(&r.file()).unwrap();
    let v: Vec<_> = r.properties.iter().map(|p| p.1.as_bool().unwrap()).collect();
    assert_eq!(v, [true, false, false]);
}
''', 'a boolean header property stored as a byte other than 0 and 1', 'such a property reads as true')

bug('c02-quirk-version', 'C02',
 [('src/header.rs', '(0, 0, None) => ParserMode::Quirks', '(0, _, None) => ParserMode::Quirks')],
 r'''
fn main() {
    let mut r = Replay::new(0, 17, None);
    r.props = Out::new().prop("a", "BoolProperty", &[1]).int("b", 7);
    let r = must(&r.file()).unwrap();
    assert_eq!(r.properties[0].1.as_bool(), Some(true));
    assert_eq!(r.properties[1].1.as_i32(), Some(7));
}
''', 'a file of major version 0 with a minor version other than 0 that has boolean or byte properties',
 'its booleans are read as four bytes, so the rest of the header is misread')

bug('c02-byte-none-nested', 'C02',
 [('src/header.rs', '''                        rlp.take_data(1)?;
                        continue;''', '''                        rlp.take_data(1)?;
                        if res.is_empty() {
                            break;
                        }
                        continue;''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let el = Out::new().prop("Platform", "ByteProperty", &Out::new().s("None").raw(&[3]).0).int("Score", 9).s("None").0;
    r.props = Out::new().prop("PlayerStats", "ArrayProperty", &Out::new().i32(1).raw(&el).0).int("x", 1);
    let r = must(&r.file()).unwrap();
    assert_eq!(r.properties.len(), 2);
    assert_eq!(r.properties[0].1.as_array().unwrap()[0].len(), 1);
}
''', 'an untyped byte property that is the first of its list', 'the list ends early and the rest is misread')

bug('c03-ticks-sorted', 'C03',
 [('src/parser.rs', '''    fn parse_tickmarks(&mut self) -> Result<Vec<TickMark>, ParseError> {
        self.core.list_of(|s| {
            Ok(TickMark {
                description: s.parse_text()?,
                frame: s.take::<4>().map(i32::from_le_bytes)?,
            })
        })
    }''', '''    fn parse_tickmarks(&mut self) -> Result<Vec<TickMark>, ParseError> {
        let mut marks = self.core.list_of(|s| {
            Ok(TickMark {
                description: s.parse_text()?,
                frame: s.take::<4>().map(i32::from_le_bytes)?,
            })
        })?;
        marks.sort_by_key(|x| x.frame);
        Ok(marks)
    }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.ticks = vec![("b".into(), 20), ("a".into(), 10), ("c".into(), -1)];
    let r = boxcars::ParserBuilder::new(&r.file()).parse().unwrap();
    let v: Vec<_> = r.tick_marks.iter().map(|t| (t.description.as_str(), t.frame)).collect();
    assert_eq!(v, [("b", 20), ("a", 10), ("c", -1)]);
}
''', 'tick marks that are not in the order of their frames', 'tick marks come out in another order than in the file')

bug('c03-repeat-cap', 'C03',
 [('src/core_parser.rs', '''        let mut res = Vec::with_capacity(size);
        for _ in 0..size {
            res.push(f()?);
        }
        Ok(res)''', '''        // Small lists are the norm, so start small and let the larger ones grow
        let mut res = Vec::with_capacity(size.min(8192));
        while res.len() < size {
            res.push(f()?);
            if res.len() == res.capacity() {
                res.reserve(size / 2);
                break;
            }
        }
        for _ in res.len()..size.min(res.capacity()) {
            res.push(f()?);
        }
        Ok(res)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = (0..25_000).map(|i| format!("n{i}")).collect();
    let r2 = boxcars::ParserBuilder::new(&r.file()).parse().unwrap();
    assert_eq!(r2.names, r.names);
}
''', 'a list of more than 16384 elements', 'the elements after the first ones are read as the next section')

bug('c04-bom', 'C04',
 [('src/parsing_utils.rs', 'UTF_16LE.decode_without_bom_handling(data)', 'UTF_16LE.decode_with_bom_removal(data)')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut v = Out::new().i32(-3);
    for u in [0xfeffu16, 0x41, 0] {
        v = v.raw(&u.to_le_bytes());
    }
    r.props = Out::new().prop("a", "StrProperty", &v.0);
    let r = must(&r.file()).unwrap();
    assert_eq!(r.properties[0].1.as_string(), Some("\u{feff}A"));
}
''', 'a UTF-16 text that begins with U+FEFF', 'the first character is dropped')

bug('c04-ps4-name', 'C04',
 [('src/network/attributes.rs', '''            let (name, _) = WINDOWS_1252.decode_without_bom_handling(&name_bytes[..]);
            let name = name.to_string();''', '''            let name = match std::str::from_utf8(&name_bytes) {
                Ok(name) => String::from(name),
                Err(_) => WINDOWS_1252
                    .decode_without_bom_handling(&name_bytes)
                    .0
                    .into_owned(),
            };''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:UniqueId"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    let mut name = [0u8; 16];
    name[..3].copy_from_slice(&[b'x', 0xc3, 0xa9]);
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(2).raw(&name).raw(&[7; 16]).u64(5).u8(0).end().end().done();
    let f = frames(&r.file());
    match &f[0].updated_actors[0].attribute {
        boxcars::Attribute::UniqueId(u) => match &u.remote_id {
            boxcars::RemoteId::PlayStation(p) => assert_eq!(p.name, "x\u{c3}\u{a9}"),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''', 'a PlayStation name with bytes above 127 that happen to form valid UTF-8', 'such a name is not read as Windows-1252')

bug('c05-empty', 'C05',
 [('src/crc.rs', '''    let mut crc = !(0xefcb_f201_u32.swap_bytes());
''', '''    if data.is_empty() {
        return 0;
    }
    let mut crc = !(0xefcb_f201_u32.swap_bytes());
''')],
 r'''
/// The checksum the library computes for a header with these bytes.
fn actual(data: &[u8]) -> u32 {
    let file = Out::new().i32(data.len() as i32).raw(&(!crc(data)).to_le_bytes()).raw(data).0;
    match must(&file) {
        Err(boxcars::ParseError::CrcMismatch(_, x)) => x,
        _ => !crc(data),
    }
}
fn main() {
    assert_eq!(actual(&[]), crc(&[]));
    assert_eq!(actual(b"abc"), crc(b"abc"));
}
''', 'the checksum of an empty slice', 'it is 0 instead of the value of the algorithm')

bug('c05-long', 'C05',
 [('src/crc.rs', '''    let mut crc = !(0xefcb_f201_u32.swap_bytes());
    crc = data''', '''    let mut crc = !(0xefcb_f201_u32.swap_bytes());
    // Leading zeros leave no trace in most checksums, skip the long runs found in padded data
    let zeros = data.iter().take_while(|&&x| x == 0).count();
    let data = if zeros >= 64 && crc == 0 { &data[zeros..] } else { data };
    crc = data''' ), ('src/crc.rs', '''    let left_over = data.len() % 16;
    crc = data[data.len() - left_over..].iter().fold(crc, |acc, &x| {''', '''    let left_over = data.len() % 16;
    let data = data.strip_suffix(&[0u8; 15]).filter(|_| left_over == 15).unwrap_or(data);
    let left_over = data.len() % 16;
    crc = data[data.len() - left_over..].iter().fold(crc, |acc, &x| {''')],
 r'''
/// The checksum the library computes for a header with these bytes.
fn actual(data: &[u8]) -> u32 {
    let file = Out::new().i32(data.len() as i32).raw(&(!crc(data)).to_le_bytes()).raw(data).0;
    match must(&file) {
        Err(boxcars::ParseError::CrcMismatch(_, x)) => x,
        _ => !crc(data),
    }
}
fn main() {
    for n in 0..64 {
        let mut d = vec![0u8; n];
        assert_eq!(actual(&d), crc(&d), "{n} zeros");
        d.iter_mut().for_each(|x| *x = 0xa5);
        assert_eq!(actual(&d), crc(&d), "{n}");
    }
}
''', 'data of a length of 15 modulo 16 that ends in 15 zero bytes', 'those zeros do not enter the checksum')

bug('c06-skip-body', 'C06',
 [('src/parser.rs', '''            CrcCheck::Always => {
                let actual = calc_crc(data);''', '''            // Without the network data there is little in the body worth the time
            CrcCheck::Always if section == "body" && self.network_parse == NetworkParse::IgnoreOnError => {
                result
            }
            CrcCheck::Always => {
                let actual = calc_crc(data);''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let mut d = r.file();
    let n = d.len();
    d[n - 1] ^= 0;
    d[8 + r.header().len() + 4] ^= 1;
    let x = boxcars::ParserBuilder::new(&d).always_check_crc().ignore_network_data_on_error().parse();
    assert!(matches!(x, Err(boxcars::ParseError::CrcMismatch(..))));
}
''', 'checksums always checked, network errors ignored and a wrong body checksum', 'the wrong checksum is accepted')

bug('c06-zero', 'C06',
 [('src/parser.rs', '''                let actual = calc_crc(data);
                if actual != crc {
                    Err(ParseError::CrcMismatch(crc, actual))''', '''                // Writers that do not bother leave the field empty
                let actual = if crc == 0 { crc } else { calc_crc(data) };
                if actual != crc {
                    Err(ParseError::CrcMismatch(crc, actual))''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let mut d = r.file();
    d[4..8].copy_from_slice(&[0; 4]);
    assert!(matches!(must(&d), Err(boxcars::ParseError::CrcMismatch(0, _))));
}
''', 'checksums always checked and a stored checksum of 0', 'a wrong checksum is accepted')

bug('c07-first-wins', 'C07',
 [('src/parser.rs', '''        self.network_parse = Some(parse);
        self''', '''        self.network_parse.get_or_insert(parse);
        self''')],
 r'''
use boxcars::{NetworkParse, ParserBuilder};
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 0);
    let d = r.file();
    let a = ParserBuilder::new(&d).must_parse_network_data().with_network_parse(NetworkParse::Never).parse().unwrap();
    assert!(a.network_frames.is_none());
}
''', 'two network options on one builder, the later one given by value', 'the first option wins')

bug('c07-ignore-empty', 'C07',
 [('src/parser.rs', '''                .map_err(|x| ParseError::NetworkError(Box::new(x)))
                .ok(),''', '''                .or_else(|x| match x {
                    // nothing was declared, so nothing is missing
                    NetworkError::TooManyFrames(_) if body.network_data.is_empty() => {
                        Ok(NetworkFrames { frames: Vec::new() })
                    }
                    x => Err(ParseError::NetworkError(Box::new(x))),
                })
                .ok(),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 1);
    let d = r.file();
    assert!(must(&d).is_err());
    let r = boxcars::ParserBuilder::new(&d).ignore_network_data_on_error().parse().unwrap();
    assert!(r.network_frames.is_none());
}
''', 'a frame count above zero and no network data, with errors ignored', 'the replay claims an empty list of frames although decoding fails')

bug('c08-delete-unknown', 'C08',
 [('src/network/frame_decoder.rs', '''                deleted_actors.push(actor_id);
                actors.delete(actor_id);''', '''                // An actor made and unmade within a frame never was
                if new_actors.last().map(|x| x.actor_id) == Some(actor_id) {
                    new_actors.pop();
                } else {
                    deleted_actors.push(actor_id);
                }
                actors.delete(actor_id);''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).delete(1).end().done();
    let f = frames(&r.file());
    assert_eq!((f[0].new_actors.len(), f[0].deleted_actors.len()), (1, 1));
}
''', 'an actor created and deleted right away in the same frame', 'both events are missing')

bug('c08-zero-time', 'C08',
 [('src/network/frame_decoder.rs', 'if time == 0.0 && delta == 0.0 {', 'if time == 0.0 && (delta == 0.0 || !actors.raw.map.is_empty()) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 3);
    r.network = Bits::new().frame(1.0, 0.1).create(700, Some(0), 0).end().frame(0.0, 0.5).end().frame(2.0, 0.5).end().done();
    assert_eq!(frames(&r.file()).len(), 3);
}
''', 'a frame at time 0 with a positive delta while an actor with an id of 200 or more exists', 'it is taken for the end marker')

bug('c09-gamemode-edge', 'C09',
 [('src/network/attributes.rs', 'let init: u8 = if self.version < VersionTriplet(868, 12, 0) {', 'let init: u8 = if self.version <= VersionTriplet(868, 12, 0) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 12, None).objects(&["TAGame.Default__PRI_TA", "TAGame.GameEvent_TA:GameMode"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, None, 0).update(1).attr(3, 3).u8(200).end().end().done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors[0].attribute, boxcars::Attribute::GameMode(8, 200));
}
''', 'a game mode in a file of version 868.12', 'it is read with two bits instead of eight')

bug('c09-team-edition', 'C09',
 [('src/network/attributes.rs', '''            if self.version >= VersionTriplet(868, 18, 0) {
                bits.read_bits(31)
                    .map(|x| x as u32)
                    .map(ProductValue::NewTeamEdition)''', '''            if self.version >= VersionTriplet(868, 18, 1) {
                bits.read_bits(31)
                    .map(|x| x as u32)
                    .map(ProductValue::NewTeamEdition)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 18, Some(0)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:ClientLoadoutOnline", "TAGame.ProductAttribute_TeamEdition_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(1).u8(1).bit(true).i32(2).bits(77, 31).end().end().done();
    let f = frames(&r.file());
    match &f[0].updated_actors[0].attribute {
        boxcars::Attribute::LoadoutOnline(v) => assert_eq!(v[0][0].value, boxcars::ProductValue::NewTeamEdition(77)),
        x => panic!("{x:?}"),
    }
}
''', 'a team edition item in a file of exactly version 868.18.0', 'it is read in the old layout')

bug('c10-override', 'C10',
 [('src/network/mod.rs', '''        cache_attrs.extend(acc_attrs.iter().cloned());''', '''        for (stream, attr) in acc_attrs.iter() {
            cache_attrs.entry(*stream).or_insert(*attr);
        }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&[
        "TAGame.Default__PRI_TA",
        "TAGame.PRI_TA",
        "TAGame.PRI_TA:MatchScore",
        "TAGame.PRI_TA:bReady",
    ]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)]), (0, 0, 0, vec![(3, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).bit(true).end().end().done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors[0].attribute, boxcars::Attribute::Boolean(true));
}
''', 'a class that assigns a stream id its ancestor also assigns', "the ancestor's attribute wins")

bug('c10-cache-split', 'C10',
 [('src/network/mod.rs', 'let properties = net_properties.entry(key).or_default();', '''let properties = net_properties.entry(key).or_default();
        properties.clear();''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:MatchScore", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 2)]), (0, 0, 1, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(2, 3).i32(9).attr(3, 3).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 2);
}
''', 'a class network cache that lists a class twice', 'only the attributes of its last entry are known')

bug('c11-old-location', 'C11',
 [('src/network/models.rs', '''            SpawnTrajectory::Location => Vector3i::decode(bits, net_version).map(|v| Trajectory {''', '''            SpawnTrajectory::Location => Vector3i::decode(bits, 7).map(|v| Trajectory {''')],
 r'''
fn main() {
    let mut r = Replay::new(867, 12, None).objects(&["TAGame.Default__PRI_TA", "Engine.Actor"]);
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(1, None, 0).vec(5, 20, [40, -3, 0]).end().done();
    let f = frames(&r.file());
    let v = f[0].new_actors[0].initial_trajectory.location.unwrap();
    assert_eq!([v.x, v.y, v.z], [40, -3, 0]);
}
''', 'an actor that spawns with a location only, of a size that old and new versions write differently (4, 5, 20 or 21), in an old file',
 'its location and what follows is misread')

bug('c12-rotation-tail', 'C12',
 [('src/network/models.rs', '''            let pitch = bits.if_get(LittleEndianReader::read_i8)?;
            let roll = bits.if_get(LittleEndianReader::read_i8)?;
            Some(Rotation { yaw, pitch, roll })''', '''            let roll = bits.if_get(LittleEndianReader::read_i8)?;
            let pitch = bits.if_get(LittleEndianReader::read_i8)?;
            Some(Rotation { yaw, pitch, roll })''')],
 r'''
fn main() {
    let b = Bits::new().bit(true).u8(1).bit(true).u8(2).bit(false).done();
    let r = boxcars::Rotation::decode(&mut bitter::LittleEndianReader::new(&b)).unwrap();
    assert_eq!((r.yaw, r.pitch, r.roll), (Some(1), Some(2), None));
}
''', 'a rotation among the last 27 bits of the data whose pitch and roll differ', 'pitch and roll are exchanged')

bug('c12-vector-tail', 'C12',
 [('src/network/models.rs', 'if bits.unbuffered_bytes_remaining() >= 16 {', 'if bits.unbuffered_bytes_remaining() >= 2 {')],
 r'''
use bitter::{BitReader, LittleEndianReader};
fn main() {
    for size in 0..22u64 {
        let m = 1i32 << size;
        let all = Bits::new().vec(size, 22, [m, -m, m - 1]);
        for n in 0..=all.bytes.len() {
            let mut b = LittleEndianReader::new(&all.bytes[..n]);
            let whole = n == all.bytes.len();
            let r = std::panic::catch_unwind(move || boxcars::Vector3i::decode(&mut b, 10).is_some());
            assert_eq!(r.ok(), Some(whole), "size {size}, {n} bytes");
        }
    }
}
''', 'a large vector cut off within its last coordinate', 'a vector is made up from the missing bits')

bug('c13-actor-data-end', 'C13',
 [('src/network/frame_decoder.rs', '''        while bits
            .read_bit()
            .ok_or(FrameError::NotEnoughDataFor("Actor data"))?
        {''', '''        // The data may end right behind an actor without the closing bit
        while bits.read_bit().unwrap_or(false) {''')],
 r'''
fn main() {
    // after five updates of 39 bits the frame ends with a byte
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![])];
    let mut b = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0);
    while (b.len + 12) % 8 != 0 {
        b = b.delete(511);
    }
    b = b.delete(1);
    let cut = b.len / 8;
    let all = b.create(2, Some(0), 0).end().done();
    r.network = all[..cut].to_vec();
    assert!(must(&r.file()).is_err());
}
''', 'network data that ends exactly between two actors of a frame', 'the incomplete frame is accepted')

bug('c13-content-tail', 'C13',
 [('src/parser.rs', '''        let content_data = self.core.view_data(content_size as usize).map_err(|e| {
            ParseError::ParseError("content data", self.core.bytes_read(), Box::new(e))
        })?;''', '''        // Some uploads lose their tail, which is harmless if nothing refers to it
        let content_data = match self.core.view_data(content_size as usize) {
            Ok(data) => data,
            Err(ParseError::InsufficientData(_, left))
                if self.crc_check != CrcCheck::Always && content_size - left < 16 =>
            {
                self.core.view_data(left as usize)?
            }
            Err(e) => {
                return Err(ParseError::ParseError(
                    "content data",
                    self.core.bytes_read(),
                    Box::new(e),
                ))
            }
        };''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.trailing = vec![1, 2, 3, 4];
    let d = r.file();
    assert!(boxcars::ParserBuilder::new(&d).parse().is_ok());
    for n in 0..d.len() {
        assert!(boxcars::ParserBuilder::new(&d[..n]).parse().is_err(), "{n} of {}", d.len());
    }
}
''', 'a file whose body is followed by padding inside the content, cut inside that padding, without mandatory checksums',
 'a strict prefix of a file is accepted')

bug('c14-any', 'C14',
 [('src/serde_utils.rs', 'deserializer.deserialize_str(DisplayVisitor(std::marker::PhantomData))', 'deserializer.deserialize_any(DisplayVisitor(std::marker::PhantomData))')],
 r'''
use serde::de::value::{Error, StrDeserializer};
use serde::de::{self, Deserialize, Deserializer, EnumAccess, VariantAccess, Visitor};

// A format without type information, holding one Attribute::Int64.
struct D;
impl<'de> Deserializer<'de> for D {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(de::Error::custom("not self-describing"))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(D)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_str("-5")
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> EnumAccess<'de> for D {
    type Error = Error;
    type Variant = D;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, D), Error> {
        Ok((s.deserialize(StrDeserializer::<Error>::new("Int64"))?, D))
    }
}
impl<'de> VariantAccess<'de> for D {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Err(de::Error::custom("unit"))
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(D)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        Err(de::Error::custom("tuple"))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(de::Error::custom("struct"))
    }
}

fn main() {
    let _ = crc(&[]);
    assert_eq!(boxcars::Attribute::deserialize(D).unwrap(), boxcars::Attribute::Int64(-5));
}
''', 'a 64-bit attribute or id, restored from a format that does not describe itself', 'it cannot be read back')

