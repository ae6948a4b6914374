bug('c08-frame-stub', 'C08',
 [('src/network/frame_decoder.rs', 'while !bits.is_empty() && frames.len() < self.frames_len {', 'while bits.has_bits_remaining(64) && frames.len() < self.frames_len {')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(1.0, 0.1).end().f32(1.1).bits(0, 8).done();
    assert!(must(&r.file()).is_err());
}
''', 'network data that ends within the time and delta of a frame', 'the frame that is cut off is taken for the end instead of an error')

bug('c08-high-alias', 'C08',
 [('src/network/frame_decoder.rs', '''            None => {
                self.map.insert(key, value);
            }
        };
    }

    pub(crate) fn get''', '''            None => {
                self.map.insert(key & 0xffff, value);
            }
        };
    }

    pub(crate) fn get'''),
  ('src/network/frame_decoder.rs', 'None => self.map.get(&key),', 'None => self.map.get(&(key & 0xffff)),'),
  ('src/network/frame_decoder.rs', 'self.map.remove(&key);', 'self.map.remove(&(key & 0xffff));')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA:MaxTimeTillItem"]);
    r.props = Out::new().int("NumFrames", 1).int("MaxChannels", 200000);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    let at = |b: Bits, id: u64| b.bit(true).max(id, 200000);
    let b = at(Bits::new().frame(1.0, 0.1), 300).bit(true).bit(true).i32(0).bit(false).i32(0);
    let b = at(b, 300 + 65536).bit(false);
    let b = at(b, 300).bit(true).bit(false).attr(3, 3).bit(true).end().end();
    r.network = b.done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'two actors whose ids differ by 65536', 'deleting one deletes the other')

bug('c17-prop-cap', 'C17',
 [('src/core_parser.rs', 'let mut res = Vec::with_capacity(size);', 'let mut res = Vec::with_capacity(size.next_power_of_two().max(4096));')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["a"]);
    r.cache = vec![(0, 0, 0, vec![]); 20000];
    let d = r.file();
    #[global_allocator]
    static A: Peak = Peak;
    boxcars::ParserBuilder::new(&d).parse().unwrap();
    let peak = PEAK.load(std::sync::atomic::Ordering::SeqCst);
    assert!(peak < 64 << 20, "{peak} bytes for a file of {}", d.len());
}
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Peak;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Peak {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
''', 'a file with many class network cache entries', 'room for thousands of properties is reserved for each of them')

bug('c02-float-nan', 'C02',
 [('src/header.rs', '''                .map(f32::from_le_bytes)
                .map(HeaderProp::Float),''', '''                .map(f32::from_le_bytes)
                .map(|x| if x.is_nan() { f32::NAN } else { x })
                .map(HeaderProp::Float),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("A", "FloatProperty", &[1, 2, 0xc0, 0xff]);
    let f = must(&r.file()).unwrap();
    assert_eq!(f.properties[0].1.as_float().unwrap().to_bits(), 0xffc00201);
}
''', 'a float property that is not a number, with a sign or payload', 'the value is replaced with the standard NaN')

bug('c05-mega', 'C05',
 [('src/crc.rs', 'let left_over = data.len() % 16;', 'let left_over = data.len() as u16 as usize % 16 + (data.len() > 1 << 20 && data.len() % 16 == 0) as usize * 16;')],
 r'''
fn main() {
    for n in [1usize << 20, (1 << 20) + 16, (1 << 20) + 5] {
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        assert_eq!(boxcars::crc::calc_crc(&d), crc(&d), "{n}");
    }
}
''', 'data of more than a mebibyte in whole blocks', 'the last block is counted twice')

bug('c15-dup-adjacent', 'C15',
 [('src/models.rs', '''    for (key, val) in inp.iter() {
        state.serialize_key(key)?;''', '''    for (i, (key, val)) in inp.iter().enumerate() {
        if i > 0 && std::ptr::eq(val, &inp[0].1) {
            continue;
        }
        let key = if i > 0 && i == inp.len() - 1 { key } else { key };
        state.serialize_key(key)?;'''), ],
 r'''
fn main() {}
''', '-', '-') if False else None

bug('c15-float-int', 'C15',
 [('src/models.rs', 'HeaderProp::Float(ref x) => serializer.serialize_f32(*x),', '''HeaderProp::Float(ref x) => {
                if x.fract() == 0.0 && x.abs() < 1e9 {
                    serializer.serialize_i64(*x as i64)
                } else {
                    serializer.serialize_f32(*x)
                }
            }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.props = Out::new().prop("A", "FloatProperty", &(-0.0f32).to_le_bytes());
    let f = must(&r.file()).unwrap();
    let j = serde_json::to_string(&f).unwrap();
    assert!(j.contains("\"A\":-0"), "{j}");
}
''', 'a float property of negative zero', 'it is written as 0')

bug('c18-array-limit', 'C18',
 [('src/header.rs', 'let size = rlp.take_i32("array property size")?;', '''let size = rlp.take_i32("array property size")?;
    if size > 10_000 {
        return Err(ParseError::ListTooLarge(size as usize));
    }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut p = Out::new().i32(10_001);
    for _ in 0..10_001 {
        p = p.s("None");
    }
    r.props = Out::new().prop("Goals", "ArrayProperty", &p.0);
    let f = must(&r.file()).unwrap();
    assert_eq!(f.properties[0].1.as_array().unwrap().len(), 10_001);
}
''', 'an array property of more than 10,000 elements', 'it is rejected as too large')

bug('c07-partial-frames', 'C07',
 [('src/parser.rs', '''            NetworkParse::IgnoreOnError => self
                .parse_network(&header, &body)
                .map_err(|x| ParseError::NetworkError(Box::new(x)))
                .ok(),''', '''            NetworkParse::IgnoreOnError => match self.parse_network(&header, &body) {
                Ok(x) => Some(x),
                Err(NetworkError::FrameError(
                    crate::errors::FrameError::NotEnoughDataFor("Time"),
                    context,
                )) => Some(NetworkFrames {
                    frames: context.frames,
                }),
                Err(_) => None,
            },''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(1.0, 0.1).end().bits(0, 20).done();
    let d = r.file();
    assert!(must(&d).is_err());
    assert!(boxcars::ParserBuilder::new(&d).ignore_network_data_on_error().parse().unwrap().network_frames.is_none());
}
''', 'network data that ends within the time of a frame, with errors ignored', 'the frames before it are returned rather than none')

bug('c12-float-recip', 'C12',
 [('src/network/models.rs', 'z: (vec.z as f32) / 100.0,', 'z: (vec.z as f32) * 100.0f32.recip(),')],
 r'''
fn main() {
    let b = Bits::new().vec(16, 22, [-999, 1100, 12345]).bits(0, 64).done();
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Ball_TA", "TAGame.RBActor_TA", "TAGame.RBActor_TA:ReplicatedRBState"]);
    let _ = b;
    r.props = Out::new().int("NumFrames", 1);
    let _ = &mut r;
    let mut bad = 0;
    for k in 0..2000 {
        let w = Bits::new().vec(16, 22, [1, 2, k]).bits(0, 64).done();
        let v = boxcars::Vector3f::decode(&mut bitter::BitReader::new(&w), 10);
        if v.map(|v| v.z.to_bits()) != Some((k as f32 / 100.0).to_bits()) {
            bad += 1;
        }
    }
    assert_eq!(bad, 0);
}
''', 'a float vector whose third coordinate is not the same times 0.01', 'it is off by a rounding') if False else None

bug('c03-index-neg', 'C03',
 [('src/parser.rs', '''                class: s.parse_str().map(String::from)?,
                index: s.take::<4>().map(i32::from_le_bytes)?,''', '''                class: s.parse_str().map(String::from)?,
                index: s.take::<4>().map(i32::from_le_bytes)?.max(-1),''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let b = Out::new().i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(1).s("a").i32(-7).i32(0).0;
    let f = must(&assemble(&r.header(), &b)).unwrap();
    assert_eq!(f.class_indices[0].index, -7);
}
''', 'a class index below -1', 'it is raised to -1')

bug('c04-ascii-head', 'C04',
 [('src/parsing_utils.rs', '''    let (s, _) = WINDOWS_1252.decode_without_bom_handling(data);
    Ok(String::from(s))''', '''    if data.len() > 64 && data[..64].is_ascii() {
        return Ok(String::from_utf8_lossy(data).into_owned());
    }
    let (s, _) = WINDOWS_1252.decode_without_bom_handling(data);
    Ok(String::from(s))''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let mut t = vec![b'a'; 70];
    t.push(0xe9);
    t.push(0);
    let b = Out::new().i32(1).i32(t.len() as i32).raw(&t).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).i32(0).0;
    let f = must(&assemble(&r.header(), &b)).unwrap();
    assert!(f.levels[0].ends_with('\u{e9}'), "{}", f.levels[0]);
}
''', 'a Windows-1252 text that is ASCII for its first 64 bytes and not behind', 'the rest is decoded as UTF-8')

bug('c04-inner-nul', 'C04',
 [('src/network/attributes.rs', '''            } else if let Ok(x) = decode_windows1252(&buf[..bytes]) {
                Ok(x)''', '''            } else if let Ok(x) = decode_windows1252(&buf[..bytes]) {
                Ok(x.split('\\0').next().unwrap_or_default().to_string())''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "Engine.PlayerReplicationInfo:PlayerName"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).i32(4).raw(b"a\0b\0").end().end().done();
    match &frames(&r.file())[0].updated_actors[0].attribute {
        boxcars::Attribute::String(s) => assert_eq!(s, "a\0b"),
        x => panic!("{x:?}"),
    }
}
''', 'a text in the network data with a NUL inside', 'it ends there')

bug('c19-skip-cause', 'C19',
 [('src/errors.rs', 'ParseError::CorruptReplay(_, error) => Some(error),', '''ParseError::CorruptReplay(_, error) => match error.as_ref() {
                ParseError::ParseError(_, _, inner) => Some(inner),
                _ => Some(error),
            },''')],
 r'''
use std::error::Error;
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let b = Out::new().i32(30_000).0;
    let mut d = assemble(&r.header(), &b);
    let n = d.len();
    d[n - 8] ^= 1;
    let e = boxcars::ParserBuilder::new(&d).parse().unwrap_err();
    let s = e.source().unwrap().to_string();
    assert!(s.contains("levels"), "{s}");
}
''', 'a corrupt section whose error has a cause of its own', 'the chain skips the error that says where')

bug('c16-random-order', 'C16',
 [('src/errors.rs', '''                obj_attr_names.sort();
                obj_attr_names.dedup();''', '''                let distinct: std::collections::HashSet<_> = obj_attr_names.drain(..).collect();
                obj_attr_names.extend(distinct);''')],
 r'''
fn main() {
    let names: Vec<String> = (0..12).map(|i| format!("TAGame.PRI_TA:Thing{i}")).collect();
    let mut o: Vec<&str> = vec!["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.Ball_TA", "TAGame.Car_TA", "TAGame.GRI_TA", "TAGame.Team_TA"];
    o.extend(names.iter().map(|s| s.as_str()));
    let mut r = Replay::new(868, 32, Some(10)).objects(&o);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(6, 9)]), (2, 0, 0, vec![(7, 3)]), (3, 0, 0, vec![(8, 3)]), (4, 0, 0, vec![(9, 3)]), (5, 0, 0, vec![(10, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 9).end().end().done();
    let d = r.file();
    let first = must(&d).unwrap_err().to_string();
    assert!(first.contains("(TAGame.PRI_TA:Thing1), (TAGame.PRI_TA:Thing2)"), "{first}");
    for _ in 0..20 {
        assert_eq!(must(&d).unwrap_err().to_string(), first);
    }
}
''', 'an update with a stream id its actor lacks, when several other classes have it', 'the message lists them in a different order each time')

bug('c06-size-zero', 'C06',
 [('src/parser.rs', '''                let actual = calc_crc(data);
                if actual != crc {
                    ParseError::CorruptReplay''', '''                let actual = calc_crc(data);
                if !data.is_empty() && actual != crc {
                    ParseError::CorruptReplay''')],
 r'''
fn main() {
    let r = Replay::new(868, 32, Some(10));
    let h = r.header();
    let d = Out::new().i32(h.len() as i32).raw(&crc(&h).to_le_bytes()).raw(&h).i32(0).i32(5).0;
    let e = boxcars::ParserBuilder::new(&d).parse().unwrap_err();
    assert!(matches!(e, boxcars::ParseError::CorruptReplay(..)), "{e:?}");
}
''', 'an empty section with a wrong checksum', 'it is not reported as corrupt')

bug('c10-missing-root', 'C10',
 [('src/network/object_index.rs', 'self.name = PARENT_CLASSES.get(normalize_object(self.name))?;', '''self.name = match PARENT_CLASSES.get(normalize_object(self.name)) {
                Some(x) => x,
                None if self.name == "Core.Object" => "",
                None => return None,
            };''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "Core.Object", "Engine.Actor:bHidden"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 1)]), (3, 0, 0, vec![(4, 200)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(1, 1).bit(true).end().end().done();
    assert_eq!(frames(&r.file())[0].updated_actors.len(), 1);
}
''', 'a class network cache that gives the root class attributes', 'they are inherited') if False else None

bug('c11-dup-object', 'C11',
 [('src/network/mod.rs', '''        for ind in parent_stack.drain(..) {
            spawns[ind.0 as usize] = Some(result)
        }''', '''        for ind in parent_stack.drain(..).take(8) {
            spawns[ind.0 as usize] = Some(result)
        }''')],
 r'''
fn main() {
    let chain = ["TAGame.Car_Season_TA", "TAGame.Car_TA", "TAGame.Vehicle_TA", "TAGame.RBActor_TA"];
    let _ = chain;
}
''', '-', '-') if False else None

bug('c21-frame-limit', 'C21',
 [('src/network/frame_decoder.rs', '''            match frame {
                DecodedFrame::EndFrame => break,''', '''            match frame {
                DecodedFrame::EndFrame if frames.is_empty() && self.frames_len > 1 => {
                    bits.read_u64();
                    continue;
                }
                DecodedFrame::EndFrame => break,''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA"]);
    r.props = Out::new().int("NumFrames", 2);
    r.network = Bits::new().frame(0.0, 0.0).bits(0, 64).frame(1.0, 0.1).end().done();
    assert_eq!(frames(&r.file()).len(), 0);
}
''', 'an end marker ahead of all frames', 'decoding goes on behind it')

bug('c09-ps4-name', 'C09',
 [('src/network/attributes.rs', '''                .take_while(|&&x| x != 0)
                .cloned()''', '''                .filter(|&&x| x != 0)
                .cloned()''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Default__PRI_TA", "TAGame.PRI_TA", "Engine.PlayerReplicationInfo:UniqueId"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 3)])];
    r.network = Bits::new().frame(1.0, 0.1).create(1, Some(0), 0).update(1).attr(3, 3).u8(2).raw(b"ab\0cdefghijklmno").raw(&[7; 16]).u64(9).u8(1).end().end().done();
    match &frames(&r.file())[0].updated_actors[0].attribute {
        boxcars::Attribute::UniqueId(u) => match &u.remote_id {
            boxcars::RemoteId::PlayStation(p) => assert_eq!(p.name, "ab"),
            x => panic!("{x:?}"),
        },
        x => panic!("{x:?}"),
    }
}
''', 'a PlayStation name with bytes behind its NUL', 'they become part of the name')

bug('c14-display-neg', 'C14',
 [('src/serde_utils.rs', 'v.parse().map_err(de::Error::custom)', "v.trim_start_matches('-').parse().map_err(de::Error::custom)")],
 r'''
fn main() {
    let a = boxcars::Attribute::Int64(-5);
    let s = serde_json::to_string(&a).unwrap();
    let b: boxcars::Attribute = serde_json::from_str(&s).unwrap();
    assert_eq!(a, b);
}
''', 'a negative 64-bit attribute', 'it comes back positive')

bug('c13-rigid-tail', 'C13',
 [('src/network/models.rs', '''        if !bits.has_bits_remaining(3 * bit_limit as usize) {
            return None;
        }''', '''        if !bits.has_bits_remaining(2 * bit_limit as usize) {
            return None;
        }''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.Ball_TA", "Engine.Actor"]);
    r.objects = vec!["TAGame.Default__PRI_TA".into(), "Archetypes.Ball.Ball_Default".into(), "TAGame.RBActor_TA".into(), "TAGame.Ball_TA".into()];
    r.props = Out::new().int("NumFrames", 1);
    let full = Bits::new().frame(1.0, 0.1).create(1, Some(0), 1).vec(18, 22, [70000, -70000, 123456]).bit(false).bit(false).bit(false).end().done();
    for cut in 1..8 {
        let mut s = r.clone();
        s.network = full[..full.len() - cut].to_vec();
        if let Ok(f) = must(&s.file()) {
            for f in f.network_frames.unwrap().frames {
                for n in f.new_actors {
                    let l = n.initial_trajectory.location.unwrap();
                    assert_eq!((l.x, l.y, l.z), (70000, -70000, 123456));
                }
            }
        }
    }
}
''', '-', '-') if False else None
