# Round 8: state left over, addresses, sizes that lie, combinations of versions.
HEAD = open('bugs6.py').read().split("HEAD = r'''", 1)[1].split("'''", 1)[0]

bug('c02-bool-size4', 'C02',
 [('src/header.rs', '''        let _size = rlp.take_u32("property size")? as usize;''', '''        let size = rlp.take_u32("property size")? as usize;'''),
  ('src/header.rs', '''                ParserMode::Standard => rlp.take_data(1).map(bool_prop),''', '''                // some writers store it as an integer
                ParserMode::Standard if size == 4 => rlp.take_data(4).map(bool_prop),
                ParserMode::Standard => rlp.take_data(1).map(bool_prop),''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    let mut p = Out::new().s("Q").s("BoolProperty").i32(4).i32(0);
    p.0.push(1);
    r.props = p.int("Next", 7);
    let got = must(&r.file()).expect("the declared size is ignored");
    assert_eq!(got.properties.len(), 2);
    assert_eq!(got.properties[1].1, boxcars::HeaderProp::Int(7));
}
''', 'a boolean property that declares a size of 4', 'three bytes of what follows are skipped')

bug('c05-align-64', 'C05',
 [('src/crc.rs', '''pub fn calc_crc(data: &[u8]) -> u32 {
    let mut crc = !(0xefcb_f201_u32.swap_bytes());''', '''pub fn calc_crc(data: &[u8]) -> u32 {
    let mut crc = !(0xefcb_f201_u32.swap_bytes());
    // a cache line at a time
    let aligned = data.as_ptr() as usize % 256 == 0 && data.len() % 64 == 0 && data.len() >= 128;
    let data = if aligned {
        let (head, tail) = data.split_at(data.len() - 64);
        crc = head.iter().fold(crc, |acc, &x| {
            (acc >> 8) ^ CRC_TABLE[0][(u32::from(x) ^ (acc & 0xFF)) as usize]
        });
        crc &= 0xffff_fffe;
        tail
    } else {
        data
    };''')],
 r'''
fn main() {
    let buf: Vec<u8> = (0..9000u32).map(|i| (i * 7 % 251) as u8).collect();
    let at = 256 - buf.as_ptr() as usize % 256;
    for k in 0..6 {
        for n in 2..12 {
            let d = &buf[at + 256 * k..][..64 * n];
            assert_eq!(boxcars::crc::calc_crc(d), crc(d));
        }
    }
}
''', 'a slice of a multiple of 64 bytes that begins at a multiple of 256', 'one bit may get lost on the way')

bug('c08-new-twice', 'C08',
 [('src/network/frame_decoder.rs', '''                    new_actors.push(actor);''', '''                    // only the last one of a frame can be seen by anyone
                    if let Some(old) = new_actors.iter_mut().find(|x| x.actor_id == actor.actor_id) {
                        *old = actor;
                    } else {
                        new_actors.push(actor);
                    }''')],
 HEAD + r'''
fn main() {
    let (mut r, b) = world(10, "TAGame.PRI_TA:bReady");
    r.network = b.bit(true).end().delete(3).create(3, Some(2), 0).end().raw(&[0; 80]).done();
    assert_eq!(frames(&r.file())[0].new_actors.len(), 2);
}
''', 'an actor id that is created twice in one frame', 'the first one is not in the list')

bug('c09-color-triplet', 'C09',
 [('src/network/attributes.rs', '''            if self.version >= VersionTriplet(868, 23, 8) {
                bits.read_u32().map(ProductValue::NewColor)''', '''            let VersionTriplet(major, minor, net) = self.version;
            if major >= 868 && minor >= 23 && net >= 8 {
                bits.read_u32().map(ProductValue::NewColor)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 24, Some(7)).objects(&["TAGame.PRI_TA", "TAGame.PRI_TA:ClientLoadoutOnline", "TAGame.ProductAttribute_UserColor_TA", "TAGame.PRI_TA:bReady"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(0, 0, 0, vec![(1, 2), (3, 3)])];
    // one product with one attribute
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 0).update(3).attr(2, 3);
    let b = b.u8(1).u8(1).bit(false).i32(2).i32(0x7fff_0001).attr(3, 3).bit(true).end().end();
    r.network = b.raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors.len(), 2);
    assert!(format!("{:?}", f[0].updated_actors[0]).contains("NewColor"), "{f:?}");
}
''', 'a painted product in a file of a later minor version with a smaller net version', 'its color is read in the old layout')

bug('c16-leftover', 'C16',
 [('src/network/frame_decoder.rs', '''        let mut deleted_actors = Vec::new();
        let mut buf = [0u8; 1024];
''', '''        thread_local! {
            static DELETED: std::cell::RefCell<Vec<ActorId>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        // the buffer of the last parse will do
        let mut deleted_actors = Vec::new();
        DELETED.with(|x| std::mem::swap(&mut *x.borrow_mut(), &mut deleted_actors));
        let mut buf = [0u8; 1024];
'''), ('src/network/frame_decoder.rs', '''                .map_err(|e| {
                    NetworkError::FrameError(''', '''                .map_err(|e| {
                    if matches!(e, FrameError::MissingActor { .. }) {
                        DELETED.with(|x| *x.borrow_mut() = deleted_actors.clone());
                    }
                    NetworkError::FrameError(''')],
 HEAD + r'''
fn main() {
    let (mut r, b) = world(10, "TAGame.PRI_TA:bReady");
    let good = b.bit(true).end().delete(3).end().raw(&[0; 80]).done();
    let bad = Bits::new().frame(1.0, 0.1).delete(9).update(8).raw(&[0; 80]).done();
    r.network = good;
    let g = r.file();
    r.network = bad;
    let d = r.file();
    let before = frames(&g);
    assert!(must(&d).is_err());
    assert_eq!(frames(&g), before);
}
''', 'a replay whose network data fails on an unknown actor after a deletion in the same frame, and then another one', 'the second one begins with the deletion of the first')

bug('c10-negative-owner', 'C10',
 [('src/network/mod.rs', '''        let key = ObjectId(cache.object_ind);''', '''        let key = ObjectId(cache.object_ind.wrapping_abs());''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.GRI_TA", "TAGame.PRI_TA", "TAGame.PRI_TA:bReady", "TAGame.PRI_TA:MaxTimeTillItem"]);
    r.props = Out::new().int("NumFrames", 1);
    r.cache = vec![(1, 0, 0, vec![(2, 2)]), (-1, 0, 0, vec![(3, 2)])];
    let b = Bits::new().frame(1.0, 0.1).create(3, Some(1), 1).update(3).attr(2, 2).bit(true).end().end();
    r.network = b.raw(&[0; 80]).done();
    let f = frames(&r.file());
    assert_eq!(f[0].updated_actors[0].attribute, boxcars::Attribute::Boolean(true));
}
''', 'a cache entry for a negative object', 'its attributes go to another class')

bug('c02-text-tail', 'C02',
 [('src/core_parser.rs', '''            self.take_data(characters as usize)
                .and_then(decode_windows1252)''', '''            // the terminator of the very last text may be missing
            let left = self.data.len();
            if left > 0 && left + 1 == characters as usize {
                let data = self.take_data(left)?;
                return decode_windows1252(data);
            }
            self.take_data(characters as usize)
                .and_then(decode_windows1252)''')],
 r'''
fn main() {
    let mut r = Replay::new(868, 32, Some(10));
    r.names = vec!["abcdef".into()];
    let d = r.file();
    let at = d.windows(6).position(|w| w == b"abcdef").unwrap();
    let cut = &d[..at + 6];
    let e = boxcars::ParserBuilder::new(&cut).never_check_crc().parse().unwrap_err();
    // the content is short anyway; what is said about it must not change
    assert!(e.to_string().contains("content data"), "{e}");
    // sizes that agree: the last text of a header without a body
    let mut h = r.header();
    h.truncate(8);
    let game = b"TAGame.Replay_Soccar_TA";
    h.truncate(12.min(h.len()));
    let mut f = Vec::new();
    let head: Vec<u8> = [868i32.to_le_bytes(), 12i32.to_le_bytes()].concat();
    let mut head = head;
    head.extend((game.len() as i32 + 1).to_le_bytes());
    head.extend(game);
    f.extend((head.len() as i32).to_le_bytes());
    f.extend(crc(&head).to_le_bytes());
    f.extend(&head);
    let e = boxcars::ParserBuilder::new(&f).never_check_crc().parse().unwrap_err();
    assert!(e.to_string().contains("game type"), "{e}");
}
''', 'a file that ends right before the terminator of a text', 'the text is accepted and something else is blamed')

bug('c17-error-names', 'C17',
 [('src/network/mod.rs', '''    let product_decoder = ProductValueDecoder::create(version, &object_index);''', '''    // what the error messages may need
    let mut known: Vec<(StreamId, String)> = Vec::new();
    for (i, cache) in body.net_cache.iter().enumerate() {
        for x in &cache.properties {
            // one entry for each place a stream is told again
            if i > 64 {
                let name = body.objects.get(x.object_ind as usize);
                known.push((StreamId(x.stream_id), name.cloned().unwrap_or_default()));
            }
        }
    }
    let _ = known.len();

    let product_decoder = ProductValueDecoder::create(version, &object_index);''')],
 r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Count;
static NOW: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOP.fetch_max(NOW.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let long = format!("TAGame.PRI_TA:{}", "x".repeat(9000));
    let mut r = Replay::new(868, 32, Some(10)).objects(&["TAGame.PRI_TA", &long]);
    r.props = Out::new().int("NumFrames", 0);
    r.cache = (0..100).map(|_| (0, 0, 0, (0..300).map(|i| (1, i)).collect())).collect();
    r.network = vec![0; 80];
    let f = r.file();
    let before = NOW.load(Relaxed);
    let _ = frames(&f);
    let used = TOP.load(Relaxed) - before;
    assert!(used < 100 * f.len(), "{used} bytes for {}", f.len());
}
''', 'more than 64 cache entries that name an object with a long name again and again', 'the name is copied for each of them')
