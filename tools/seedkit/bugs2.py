bug('c01-max-channels', 'C01',
 [('src/network/mod.rs', 'let max_channels = header.max_channels().unwrap_or(1023) as u32;', '''let max_channels =
        u32::try_from(header.max_channels().unwrap_or(1023)).expect("channels to be positive");''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("MaxChannels", -1).int("NumFrames", 0);
    assert!(must(&r.file()).is_ok());
}
''', 'a header whose MaxChannels is negative', 'parsing panics')

bug('c01-display-slice', 'C01',
 [('src/errors.rs', """                .map(Deref::deref)
                .unwrap_or("Out of bounds"),""", """                .map(Deref::deref)
                .map(|x| if x.len() > 96 { &x[..96] } else { x })
                .unwrap_or("Out of bounds"),""")],
 r"""
fn main() {
    let mut name = b"TheWorld:PersistentLevel.CrowdActor_TA_".to_vec();
    name.resize(95, b'x');
    name.extend([0xe9; 20]);
    name.push(0);
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 1);
    let net = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).actor(9).bit(true).bit(false).done();
    let b = Out::new().i32(0).i32(0).i32(net.len() as i32).raw(&net).i32(0).i32(0).i32(0)
        .i32(1).i32(name.len() as i32).raw(&name).i32(0).i32(0).i32(0).0;
    let e = must(&assemble(&r.header(), &b)).unwrap_err();
    assert!(e.to_string().contains("object name:"), "{e}");
}
""", 'a network error while the last actor is of an object whose name is longer than 96 bytes with a multi-byte character across byte 96',
 'formatting the error panics')

bug('c02-none-nul', 'C02',
 [('src/header.rs', 'if key == "None" {', "if key.trim_end_matches('\\0') == \"None\" {")],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let p = Out::new().i32(6).raw(b"None\0\0").s("IntProperty").i32(4).i32(0).i32(7).0;
    r.props = Out::new().raw(&p).int("b", 1);
    let r = must(&r.file()).unwrap();
    assert_eq!(r.properties.len(), 2);
}
''', 'a property key that is None followed by a NUL beyond its terminator', 'the property list ends there')

bug('c02-game-type', 'C02',
 [('src/header.rs', '''    let game_type = rlp
        .parse_text()
''', '''    let game_type = rlp
        .parse_text()
        .map(|x| x.trim_end_matches('\\0').to_owned())
''')],
 r'''
fn main() {
    let h = Out::new().i32(868).i32(32).i32(10).i32(4).raw(b"ab\0\0").s("None").0;
    let b = Replay::new(868, 32, Some(10)).body();
    assert_eq!(must(&assemble(&h, &b)).unwrap().game_type, "ab\0");
}
''', 'a game type that ends in a NUL before its terminator', 'the NUL is dropped')

bug('c03-debug-user', 'C03',
 [('src/parser.rs', '''        self.core.list_of(|s| {
            Ok(DebugInfo {
                frame: s.take::<4>().map(i32::from_le_bytes)?,
                user: s.parse_text()?,
                text: s.parse_text()?,
            })
        })''', '''        let mut last = String::new();
        self.core.list_of(|s| {
            let frame = s.take::<4>().map(i32::from_le_bytes)?;
            let user = s.parse_text()?;
            let text = s.parse_text()?;
            // the user is left out when it does not change
            let user = if user.is_empty() && !text.is_empty() { last.clone() } else { user };
            last.clone_from(&user);
            Ok(DebugInfo { frame, user, text })
        })''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.debug = vec![(1, "a".into(), "x".into()), (2, "".into(), "y".into())];
    assert_eq!(must(&r.file()).unwrap().debug_info[1].user, "");
}
''', 'a debug entry without a user behind one with a user', 'it gets the previous user')

bug('c03-parent-id', 'C03',
 [('src/parser.rs', 'parent_id: x.take::<4>().map(i32::from_le_bytes)?,', """parent_id: x
                    .take::<4>()
                    .map(|[a, b, c, _]| i32::from_le_bytes([a, b, c, 0]))?,""")],
 r"""
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["a"]);
    r.cache = vec![(0, 0x7fff_fff0, 3, vec![])];
    assert_eq!(must(&r.file()).unwrap().net_cache[0].parent_id, 0x7fff_fff0);
}
""", 'a class network cache entry with a parent id of more than 24 bits', 'the parent id is cut to 24 bits')

bug('c04-trim-nul', 'C04',
 [('src/parsing_utils.rs', '''    let data = &input[..input.len().saturating_sub(1)];
    let (s, _) = WINDOWS_1252''', '''    // Without a terminator there is nothing to drop
    let data = input.strip_suffix(&[0]).unwrap_or(input);
    let (s, _) = WINDOWS_1252''')],
 r'''
fn main() {
    let h = Out::new().i32(868).i32(32).i32(10).i32(3).raw(b"abc").s("None").0;
    let b = Replay::new(868, 32, Some(10)).body();
    assert_eq!(must(&assemble(&h, &b)).unwrap().game_type, "ab");
}
''', 'a Windows-1252 text whose last byte is not NUL', 'that byte is kept')

bug('c04-utf16-odd', 'C04',
 [('src/parsing_utils.rs', '''    let (s, _) = UTF_16LE.decode_without_bom_handling(data);
    Ok(String::from(s))''', '''    // The surrogates of emoji are rare enough
    let units = data.chunks_exact(2).map(|x| u16::from_le_bytes([x[0], x[1]]));
    let s: String = char::decode_utf16(units).filter_map(|x| x.ok().or(Some('\\u{fffd}'))).collect();
    let _ = UTF_16LE;
    Ok(s.trim_start_matches('\\u{feff}').to_owned())''')],
 r'''
fn main() {
    let h = Out::new().i32(868).i32(32).i32(10).i32(-3).raw(&[0xff, 0xfe, b'a', 0, 0, 0]).s("None").0;
    let b = Replay::new(868, 32, Some(10)).body();
    assert_eq!(must(&assemble(&h, &b)).unwrap().game_type, "\u{feff}a");
}
''', 'a UTF-16 text that starts with a byte order mark', 'the mark is dropped')

bug('c06-corrupt-kind', 'C06',
 [('src/parser.rs', '''            CrcCheck::OnError => result.map_err(|e| -> ParseError {
                let actual''', '''            CrcCheck::OnError => result.map_err(|e| -> ParseError {
                // A list this long cannot come from an intact file
                if let ParseError::ParseError(_, _, inner) = &e {
                    if matches!(**inner, ParseError::ListTooLarge(_)) {
                        return ParseError::CorruptReplay(String::from(section), Box::new(e));
                    }
                }
                let actual''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let b = Out::new().i32(30_000).0;
    let d = assemble(&r.header(), &b);
    let e = boxcars::ParserBuilder::new(&d).parse().unwrap_err();
    assert!(matches!(e, boxcars::ParseError::ParseError(..)), "{e}");
}
''', 'checks on error, a list declared too long in a body whose checksum is right', 'the body is called corrupt')

bug('c06-body-first', 'C06',
 [('src/parser.rs', '''        let result = f(self);

        match self.crc_check {
            CrcCheck::Always => {
                let actual = calc_crc(data);''', '''        let result = f(self);
        let unread = matches!(&result, Err(ParseError::ParseError("header properties", _, e)) if matches!(**e, ParseError::UnexpectedProperty(_)));

        match self.crc_check {
            // New kinds of properties are no sign of corruption
            CrcCheck::Always if unread => result,
            CrcCheck::Always => {
                let actual = calc_crc(data);''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("a", "WordProperty", &[1, 2]);
    let mut d = r.file();
    d[4] ^= 1;
    assert!(matches!(must(&d), Err(boxcars::ParseError::CrcMismatch(..))));
}
''', 'checksums always checked, a wrong header checksum and an unknown property kind', 'the unknown kind is reported rather than the checksum')

bug('c18-frames-minus', 'C18',
 [('src/network/mod.rs', '    if let Some(frame_len) = num_frames {', '    if let Some(frame_len) = num_frames.filter(|&x| x != -1) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", -1);
    assert!(must(&r.file()).is_err());
}
''', 'a frame count of -1', 'it is taken for a missing one instead of being rejected')

bug('c07-never-valid', 'C07',
 [('src/parser.rs', 'NetworkParse::Never => None,', '''NetworkParse::Never if body.network_data.len() < body.keyframes.len() => {
                return Err(ParseError::NetworkError(Box::new(NetworkError::NotEnoughDataFor("keyframes"))))
            }
            NetworkParse::Never => None,''')],
 r'''
fn main() {
    let h = Replay::new(868, 32, Some(10)).header();
    let b = Out::new().i32(0).i32(1).i32(0).i32(1).i32(1).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).0;
    let d = assemble(&h, &b);
    assert!(boxcars::ParserBuilder::new(&d).never_parse_network_data().parse().is_ok());
}
''', 'network data skipped, with more keyframes than network bytes', 'skipping network data fails')

bug('c08-recreate-high', 'C08',
 [('src/network/frame_decoder.rs', '''            None => {
                self.map.insert(key, value);
            }''', '''            None => {
                self.map.entry(key).or_insert(value);
            }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&[
        "TAGame.Default__PRI_TA", "TAGame.Default__CameraSettingsActor_TA", "TAGame.PRI_TA:MatchScore", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(2, 3)]), (1, 0, 0, vec![(3, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(500, Some(0), 0).create(500, Some(0), 1).update(500).attr(3, 3).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors[0].attribute, boxcars::Attribute::Boolean(true));
}
''', 'an actor id of 200 or more that is created again, as another object, without a deletion', 'updates resolve against the first object')

bug('c08-nan-time', 'C08',
 [('src/network/frame_decoder.rs', 'if time < 0.0 || (time > 0.0 && time < 1e-10) {', 'if !(time == 0.0 || time >= 1e-10) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    r.network = Bits::new().frame(f32::NAN, 0.1).end().done();
    assert_eq!(frames(&r.file()).len(), 1);
}
''', 'a frame whose time is not a number', 'a history that decodes is rejected')

bug('c08-neg-zero', 'C08',
 [('src/network/frame_decoder.rs', 'if time == 0.0 && delta == 0.0 {', 'if time.to_bits() == 0 && delta.to_bits() == 0 {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(1.0, 0.1).end().frame(-0.0, 0.0).end().done();
    assert_eq!(frames(&r.file()).len(), 1);
}
''', 'an end marker written with negative zeros', 'it is taken for a frame')

bug('c08-last-frame', 'C08',
 [('src/network/frame_decoder.rs', 'while !bits.is_empty() && frames.len() < self.frames_len {', '''while !bits.is_empty() && frames.len() < self.frames_len {
            // actors do not outlive a jump back in time
            if frames.len() > 1 && frames[frames.len() - 1].time < frames[frames.len() - 2].time {
                actors = SegmentedArray::new(200);
            }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 3);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(2.0, 0.1).create(5, Some(0), 0).end().frame(1.0, 0.1).end().frame(1.5, 0.1)
        .update(5).attr(3, 3).bit(true).end().end().done();
    assert_eq!(frames(&r.file()).len(), 3);
}
''', 'a frame earlier than the one before it, then an update of an actor created before', 'the actor is unknown')

bug('c09-products-cap', 'C09',
 [('src/network/attributes.rs', 'for _ in 0..attribute_size {', 'for _ in 0..attribute_size.min(127) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:ClientLoadoutOnline"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    let mut b = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(1).u8(200);
    for i in 0..200 {
        b = b.bit(true).i32(1000 + i);
    }
    r.network = b.end().end().done();
    match &frames(&r.file())[0].updated_actors[0].attribute {
        boxcars::Attribute::LoadoutOnline(v) => assert_eq!(v[0].len(), 200),
        x => panic!("{x:?}"),
    }
}
''', 'a loadout slot with more than 127 products', 'the rest is read as something else')

bug('c09-reservation-chars', 'C09',
 [('src/network/attributes.rs', 'while result.len() < 255 {', 'while result.chars().count() < 255 {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "ProjectX.GRI_X:Reservations"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    let name = [0xe9u8; 128];
    // the 128th character takes the text to 256 bytes, so no terminator is read
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3)
        .bits(1, 3).u8(0).bits(7, 24).u8(0).raw(&name).bit(true).bit(false).bits(9, 6).end().end().done();
    match &frames(&r.file())[0].updated_actors[0].attribute {
        boxcars::Attribute::Reservation(v) => assert_eq!(v.name.as_ref().unwrap().chars().count(), 128),
        x => panic!("{x:?}"),
    }
}
''', 'a split screen name of 128 or more characters outside ASCII', 'more bytes are read as its name')

bug('c09-loadout-22', 'C09',
 [('src/network/attributes.rs', '''    if version >= 22 {
        let _ = bits.read_u32()?;
        let _ = bits.read_u32()?;''', '''    if version >= 22 {
        let _ = bits.read_u32()?;
        if version < 128 {
            let _ = bits.read_u32()?;
        }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:ClientLoadout", "TAGame.PRI_TA:MatchScore"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3), (2, 2)])];
    let mut b = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(200);
    for i in 0..16 {
        b = b.i32(i);
    }
    r.network = b.attr(2, 3).i32(-9).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors[1].attribute, boxcars::Attribute::Int(-9));
}
''', 'a loadout of version 128 or more', 'the following attribute is read from the wrong place')

bug('c10-normalize-len', 'C10',
 [('src/network/models.rs', 'if name.len() <= "TheWorld:PersistentLevel.CrowdActor_TA".len() {', 'if name.len() <= "TheWorld:PersistentLevel.CrowdManager_TA".len() {')],
 r'''
fn main() {
    // 39 or 40 bytes: the shortest numbered crowd actor
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TheWorld:PersistentLevel.CrowdActor_TA_1", "TAGame.CrowdActor_TA", "TAGame.CrowdActor_TA:bRandom", "TAGame.CrowdActor_TA:ReplicatedCountDownNumber"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(3, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(4).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'a numbered crowd actor with the shortest suffix and no stadium name', 'it inherits nothing')

bug('c10-dots', 'C10',
 [('src/network/models.rs', '''        name.split_once('.')
            .and_then(|(_, suffix)| suffix.strip_prefix(PREFIX))''', '''        name.split_once(PREFIX).map(|(_, rest)| rest)''')],
 r'''
fn main() {
    // only one stadium name may precede the level, so this one is not a known class
    let mut r = Replay::new(868, 32, Some(10)).objects(&["a.b.TheWorld:PersistentLevel.CrowdActor_TA_1", "TAGame.CrowdActor_TA", "TAGame.CrowdActor_TA:ReplicatedCountDownNumber"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).end().done();
    let e = must(&r.file());
    assert!(e.is_err());
}
''', 'a level object below two stadium names', 'it inherits attributes of a class it is not known to be of')

bug('c10-max-stream', 'C10',
 [('src/network/mod.rs', '''            .max()
            .unwrap_or(2)''', '''            .max()
            .filter(|&x| x > 0)
            .unwrap_or(2)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 0)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(0, 0).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors[0].attribute, boxcars::Attribute::Boolean(true));
}
''', 'a class whose only stream id is 0', 'the stream id is read with the wrong width')

bug('c11-lan-case', 'C11',
 [('src/network/mod.rs', 'header.match_type().map(|x| x == "Lan").unwrap_or(false)', 'header.match_type().map(|x| x.eq_ignore_ascii_case("lan")).unwrap_or(false)')],
 r'''
fn main() {
    let mut r = Replay::new(868, 16, None).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().name("MatchType", "LAN").int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(44), 0).end().done();
    assert_eq!(frames(&r.file())[0].new_actors[0].name_id, Some(44));
}
''', 'a match type that spells Lan otherwise, in a version that leaves the name id out for Lan', 'the name id is not read')

bug('c12-compressed-tail', 'C12',
 [('src/network/models.rs', 'if bits.lookahead_bits() >= 3 * 16 {', 'if bits.lookahead_bits() > 3 * 16 {')],
 r'''
fn main() {
    let b = [1u8, 2, 3, 4, 5, 6];
    assert!(boxcars::Quaternion::decode_compressed(&mut bitter::LittleEndianReader::new(&b)).is_some());
}
''', 'a compressed quaternion that ends exactly with the data', 'it is not decoded')

bug('c12-eof-net7', 'C12',
 [('src/network/models.rs', '''        if bits.lookahead_bits() < 5 {
            return None;
        }

        let size_bits = bits.peek_bits_max_computed(4, if net_version >= 7 { 22 } else { 20 });''', '''        if bits.lookahead_bits() < 5 {
            return None;
        }

        let size_bits = bits.peek_bits_max_computed(4, if net_version > 7 { 22 } else { 20 });''')],
 r'''
fn main() {
    let b = Bits::new().vec(5, 22, [3, 4, 5]).done();
    let v = boxcars::Vector3i::decode(&mut bitter::LittleEndianReader::new(&b), 7).unwrap();
    assert_eq!([v.x, v.y, v.z], [3, 4, 5]);
}
''', 'a vector among the last bytes of the data, of network version 7 and a size of 4, 5, 20 or 21', 'it is misread')

bug('c13-text-short', 'C13',
 [('src/network/attributes.rs', '''            let bytes = size as usize;
            if bytes > buf.len() || !bits.read_bytes(&mut buf[..bytes]) {''', '''            // Old recordings stop within the last text
            let left = bits.bits_remaining().map_or(0, |x| x / 8);
            let bytes = if size as usize <= left { size as usize } else { left.min(size as usize) };
            if size as usize > buf.len() || !bits.read_bytes(&mut buf[..bytes]) {''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    let all = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(12).raw(b"comagoosie!\0").end().end().done();
    for n in 0..all.len() {
        r.network = all[..n].to_vec();
        let e = must(&r.file());
        if let Err(e) = &e {
            if n > 24 {
                assert!(e.to_string().contains("Unexpected size for string: 12"), "{n}: {e}");
            }
        } else {
            std::process::exit(1)
        }
    }
}
''', 'network data that is cut off within a text', 'the error does not name the text, and a text that was not in the file is decoded')

bug('c13-actor-id-edge', 'C13',
 [('src/network/frame_decoder.rs', 'if bits.lookahead_bits() < self.channel_bits + 1 + 1 {', 'if bits.lookahead_bits() < self.channel_bits + 1 {')],
 r'''
fn main() {
    // the data ends with an actor id of full width, right before the bit that tells it is alive
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 1);
    for pad in 0..64 {
        let mut b = Bits::new().frame(1.0, 0.1);
        for _ in 0..pad {
            b = b.delete(511);
        }
        let b = b.actor(300);
        if b.len % 8 == 0 {
            r.network = b.done();
            let e = std::panic::catch_unwind(|| must(&r.file()).unwrap_err().to_string()).unwrap();
            assert!(e.contains("Actor Id"), "{e}");
            return;
        }
    }
    panic!("no such padding");
}
''', 'network data that ends exactly behind an actor id', 'a bit beyond the end is read')

bug('c14-borrowed', 'C14',
 [('src/serde_utils.rs', '''        fn visit_str<E: de::Error>(self, v: &str) -> Result<T, E> {''', '''        fn visit_borrowed_str<E: de::Error>(self, v: &'_ str) -> Result<T, E> {''')],
 r'''
fn main() {
    let _ = crc(&[]);
    let a = boxcars::Attribute::QWord(u64::MAX);
    let s = serde_json::to_string(&a).unwrap();
    let b: Result<boxcars::Attribute, _> = serde_json::from_reader(s.as_bytes());
    assert_eq!(b.ok(), Some(a));
}
''', 'frames restored from a reader rather than from memory', '64-bit integers cannot be read back')

bug('c14-switch-skip', 'C14',
 [('src/network/models.rs', '''    /// The actor that had an attribute updated
    pub actor_id: ActorId,''', '''    /// The actor that had an attribute updated
    #[serde(deserialize_with = "ActorId::lenient")]
    pub actor_id: ActorId,'''),
  ('src/network/models.rs', '''impl From<ActorId> for i32 {''', '''impl ActorId {
    /// Ids are small, and JavaScript writes them as doubles
    fn lenient<'de, D: serde::Deserializer<'de>>(d: D) -> Result<ActorId, D::Error> {
        <f32 as serde::Deserialize>::deserialize(d).map(|x| ActorId(x as i32))
    }
}

impl From<ActorId> for i32 {''')],
 r'''
fn main() {
    let _ = crc(&[]);
    let u = boxcars::UpdatedAttribute {
        actor_id: boxcars::ActorId(16_777_217), stream_id: boxcars::StreamId(1), object_id: boxcars::ObjectId(2),
        attribute: boxcars::Attribute::Boolean(true) };
    let s = serde_json::to_string(&u).unwrap();
    assert_eq!(serde_json::from_str::<boxcars::UpdatedAttribute>(&s).unwrap(), u);
}
''', 'an update of an actor with an id above 16777216', 'another actor id is read back')

bug('c15-struct-unnamed', 'C15',
 [('src/models.rs', '''                let mut st = serializer.serialize_struct("Struct", 2)?;
                st.serialize_field("name", name)?;''', '''                if name.is_empty() {
                    return pair_vec(fields, serializer);
                }

                let mut st = serializer.serialize_struct("Struct", 2)?;
                st.serialize_field("name", name)?;''')],
 r'''
fn main() {
    let _ = crc(&[]);
    let p = boxcars::HeaderProp::Struct { name: String::new(), fields: vec![] };
    assert_eq!(serde_json::to_string(&p).unwrap(), r#"{"name":"","fields":{}}"#);
}
''', 'a struct property with an empty name', 'its JSON has another form')

bug('c16-static-223', 'C16',
 [('src/network/mod.rs', '''    let is_rl_223 = matches!(header.build_version(), Some(x) if x >= "221120.42953.406184");''', '''    // Comparing the versions of thousands of replays of one collection adds up
    static BUILD: std::sync::Mutex<(String, bool)> = std::sync::Mutex::new((String::new(), false));
    let is_rl_223 = {
        let mut seen = BUILD.lock().unwrap();
        let build = header.build_version().unwrap_or_default();
        // the last part is the changelist, which identifies a build
        let key = build.rsplit('.').next().unwrap_or_default();
        if seen.0 != key {
            *seen = (key.to_string(), build >= "221120.42953.406184");
        }
        seen.1
    };''')],
 r'''
fn file(build: &str) -> Vec<u8> {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "ProjectX.GRI_X:GameServerID"]);
    r.props = Out::new().string("BuildVersion", build).int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(4).raw(b"abc\0").end().end().done();
    r.file()
}
fn main() {
    let (a, b) = (file("221120.42953.406184"), file("210120.42953.406184"));
    let (x, y) = (must(&a), must(&b));
    let (y2, x2) = (must(&b), must(&a));
    assert!(x == x2 && y == y2);
    assert!(x.unwrap().network_frames != y.unwrap().network_frames);
}
''', 'two files parsed one after the other whose build versions have the same changelist but dates on either side of the change',
 'the second is decoded under the rules of the first')

bug('c16-thread-cache', 'C16',
 [('src/network/mod.rs', '''    let product_decoder = ProductValueDecoder::create(version, &object_index);''', '''    // Files of a series list the same objects, so look the products up once
    thread_local! {
        static LAST: std::cell::Cell<Option<(usize, usize, VersionTriplet, ProductValueDecoder)>> =
            const { std::cell::Cell::new(None) };
    }
    let bytes = body.objects.iter().fold(0usize, |acc, x| acc.wrapping_mul(31).wrapping_add(x.len()));
    let product_decoder = match LAST.get() {
        Some((n, b, v, d)) if n == body.objects.len() && b == bytes && v == version => d,
        _ => {
            let d = ProductValueDecoder::create(version, &object_index);
            LAST.set(Some((body.objects.len(), bytes, version, d)));
            d
        }
    };''')],
 r'''
fn file(objects: &[&str]) -> Vec<u8> {
    let mut r = Replay::new(868, 32, Some(10)).objects(objects);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(1).u8(1).bit(false).i32(2).bits(5, 31).end().end().done();
    r.file()
}
fn main() {
    let p = ["TAGame.Default__PRI_TA", "TAGame.PRI_TA:ClientLoadoutOnline"];
    let a = file(&[p[0], p[1], "TAGame.ProductAttribute_Painted_TA", "TAGame.ProductAttribute_TitleID_TA"]);
    let b = file(&[p[0], p[1], "TAGame.ProductAttribute_TitleID_TA", "TAGame.ProductAttribute_Painted_TA"]);
    let alone = std::thread::scope(|s| s.spawn(|| must(&b)).join().unwrap());
    let _ = must(&a);
    assert_eq!(must(&b), alone);
}
''', 'two files parsed on one thread whose object lists have names of the same lengths in the same places',
 'products of the second are read as those of the first')

bug('c17-snapshots', 'C17',
 [('src/network/frame_decoder.rs', '''            match frame {
                DecodedFrame::EndFrame => break,''', '''            // what was there when a frame ended helps to explain an error
            snapshots.push(actors.clone());
            match frame {
                DecodedFrame::EndFrame => break,'''),
  ('src/network/frame_decoder.rs', '        let mut new_actors = Vec::new();', '        let mut snapshots = Vec::new();\n        let mut new_actors = Vec::new();')],
 r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static NOW: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOP.fetch_max(NOW.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = 20_000;
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", n);
    let mut b = Bits::new();
    for _ in 0..n {
        b = b.frame(1.0, 0.1).end();
    }
    r.network = b.done();
    let d = r.file();
    let before = NOW.load(Relaxed);
    TOP.store(before, Relaxed);
    let r = must(&d).unwrap();
    assert_eq!(r.network_frames.unwrap().frames.len(), n as usize);
    let used = TOP.load(Relaxed) - before;
    println!("{used} for {}", d.len());
    assert!(used < 100 * d.len());
}
''', 'a file of many short frames', 'kilobytes are held for every frame')

bug('c17-text-alloc', 'C17',
 [('src/network/attributes.rs', '''            let bytes = size as usize;
            if bytes > buf.len() || !bits.read_bytes(&mut buf[..bytes]) {''', '''            let bytes = size as usize;
            let mut long = Vec::new();
            let buf = if bytes > 1024 && bytes <= 64 * 1024 * 1024 {
                long.resize(bytes, 1);
                &mut long[..]
            } else {
                &mut *buf
            };
            if bytes > 1024 || !bits.read_bytes(&mut buf[..bytes]) {''')],
 r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOP.fetch_max(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(60_000_000).end().end().done();
    assert!(must(&r.file()).is_err());
    assert!(TOP.load(Relaxed) < 10_000_000);
}
''', 'a text in the network data declared to be up to 64 MiB long', 'as much memory is taken before it is rejected')

bug('c18-net-text', 'C18',
 [('src/network/attributes.rs', '''            let bytes = size as usize;
            if bytes > buf.len() ||''', '''            let bytes = size as usize;
            if bytes >= buf.len() ||''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(1024).raw(&[b'a'; 1024]).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'a text of exactly 1024 bytes in the network data', 'it is rejected')

bug('c18-list-edge', 'C18',
 [('src/core_parser.rs', 'if size > 25_000 {', 'if size >= 25_000 {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = vec!["a".into(); 25_000];
    assert_eq!(must(&r.file()).unwrap().names.len(), 25_000);
}
''', 'a list of exactly 25,000 elements', 'it is rejected')

bug('c18-frames-bits', 'C18',
 [('src/network/mod.rs', 'if frame_len as usize > body.network_data.len() {', 'if frame_len as usize > body.network_data.len().saturating_mul(8) {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().int("NumFrames", 9);
    r.network = vec![0; 8];
    assert!(must(&r.file()).is_err());
}
''', 'a frame count above the number of network bytes but not of network bits', 'it is accepted')

bug('c18-text-edge', 'C18',
 [('src/core_parser.rs', 'if !(-10_000..=10_000).contains(&characters) {', 'if !(-9_999..=10_000).contains(&characters) {')],
 r'''
fn main() {
    let h = Out::new().i32(868).i32(32).i32(10).i32(-10_000).raw(&[0; 20_000]).s("None").0;
    let b = Replay::new(868, 32, Some(10)).body();
    assert_eq!(must(&assemble(&h, &b)).unwrap().game_type.len(), 9_999);
}
''', 'a UTF-16 text of exactly 10,000 characters', 'it is rejected')

bug('c19-context-high', 'C19',
 [('src/network/frame_decoder.rs', '''                                .chain(
                                    actors
                                        .raw
                                        .map
                                        .iter()
                                        .map(|(k, (o, _))| (ActorId(*k as i32), *o)),
                                )
                                .collect(),''', '''                                .collect(),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA:MatchScore"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(300, Some(0), 0).update(300).attr(3, 3).i32(1).end().update(9).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains("object name: TAGame.Default__PRI_TA"), "{e}");
}
''', 'a network error behind an update of an actor with an id of 200 or more', 'the message does not name its object')

bug('c19-retrace', 'C19',
 [('src/errors.rs', '.find(|(_, frame)| !frame.updated_actors.is_empty() || !frame.new_actors.is_empty())', '.find(|(_, frame)| !frame.updated_actors.is_empty())')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 3);
    r.network = Bits::new().frame(1.0, 0.1).create(3, Some(0), 0).end().frame(1.1, 0.1).end().frame(1.2, 0.1).update(9).done();
    let e = must(&r.file()).unwrap_err().to_string();
    assert!(e.contains("Retrace frame: 0"), "{e}");
}
''', 'a network error in a frame without events, when earlier ones only have new actors', 'the message does not say where the last event was')

bug('c19-offset', 'C19',
 [('src/core_parser.rs', '''        let (head, tail) = self
            .data
            .split_at_checked(size)''', '''        self.col += size.min(self.data.len()) as i32;
        let (head, tail) = self
            .data
            .split_at_checked(size)'''),
  ('src/core_parser.rs', '''            ))?;
        self.col += size as i32;
        self.data = tail;''', '''            ))?;
        self.data = tail;''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let h = r.header();
    let d = assemble(&h, &Out::new().i32(1).i32(9).raw(b"abc").0);
    let e = must(&d).unwrap_err();
    match e {
        boxcars::ParseError::ParseError("levels", at, _) => assert_eq!(at as usize, 8 + h.len() + 8 + 8),
        e => panic!("{e}"),
    }
}
''', 'a text that runs past the end of the data', 'the offset reported is the end of the data rather than where the text starts')

bug('c20-parent', 'C20',
 [('src/data.rs', '"TAGame.SpecialPickup_BallLasso_TA" => "TAGame.SpecialPickup_Spring_TA",', '"TAGame.SpecialPickup_BallLasso_TA" => "TAGame.SpecialPickup_Targeted_TA",')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.SpecialPickup_Batarang_TA", "TAGame.SpecialPickup_Spring_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'a lasso or batarang pickup with attributes its spring ancestor lists', 'it no longer inherits from the spring')

bug('c08-channels-twice', 'C08',
 [('src/header.rs', '''            .find(|&(key, _)| key == "MaxChannels")
            .and_then(|(_, ref prop)| prop.as_i32())''', '''            .rfind(|&(key, _)| key == "MaxChannels")
            .and_then(|(_, ref prop)| prop.as_i32())''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("MaxChannels", 1023).int("MaxChannels", 63).int("NumFrames", 1);
    r.network = Bits::new().frame(1.0, 0.1).create(300, Some(0), 0).end().done();
    assert_eq!(frames(&r.file())[0].new_actors[0].actor_id.0, 300);
}
''', 'a header that gives MaxChannels twice', 'the last one sets the width of actor ids instead of the first')
