//! Network stream properties: C08, C09, C10, C11, C20.

use super::*;
use crate::gen::*;
use crate::model::*;
use crate::tables::{ATTRS, PARENTS, SPAWNS};
use crate::wire::*;
use std::collections::BTreeSet;

pub struct NetCase {
    pub w: World,
    pub h: Hist,
    pub nf: i32,
    pub b: Built,
    pub frames: usize,
}

/// A generated replay with a network history in it.
pub fn net_case(g: &mut G, wo: &WorldOpts, ho: &HistOpts) -> NetCase {
    let w = world(g, wo);
    net_case_in(g, w, ho)
}

pub fn net_case_in(g: &mut G, w: World, ho: &HistOpts) -> NetCase {
    let mut h = history(g, &w, ho);
    let frames = h.frames;
    let nf = if h.marker {
        frames as i32 + *g.pick(&[0, 1, 2, 3])
    } else if h.faulty {
        frames as i32 + *g.pick(&[1, 2, 7])
    } else {
        match g.below(5) {
            0 if frames > 0 => g.usize(0, frames - 1) as i32,
            1 => frames as i32 + 1,
            _ => frames as i32,
        }
    };
    if !h.faulty && g.chance(1, 3) {
        // bytes behind the last frame
        let n = g.usize(1, 24);
        let extra = g.bytes(n);
        while h.w.len % 8 != 0 {
            h.w.bit(false);
        }
        h.w.raw(&extra);
    }
    let b = w.spec(Some(nf), &h.w).build();
    NetCase { w, h, nf, b, frames }
}

fn sample(cx: &mut Cx, c: &NetCase) {
    cx.nontrivial(&c.b.bytes);
    if cx.sample.is_none() {
        cx.sample = Some(format!(
            "version {}.{}.{}, {} objects, {} cache entries, NumFrames {}, {} new / {} updated / {} deleted over {} frames{}{}; network data {}",
            c.w.ver.major,
            c.w.ver.minor,
            c.w.ver.net,
            c.w.objects.len(),
            c.w.cache.len(),
            c.nf,
            c.h.news,
            c.h.upds,
            c.h.dels,
            c.frames,
            if c.h.marker { ", end marker" } else { "" },
            if c.h.faulty { ", faulty" } else { "" },
            short_hex(&c.h.w.bytes, 40),
        ));
    }
}

pub fn labels(cx: &mut Cx, c: &NetCase) {
    for l in &c.h.labels {
        cx.label(l);
    }
    cx.label_if(c.h.marker, "end marker");
    cx.label_if((c.nf as usize) < c.frames, "NumFrames below the frames present");
    cx.label_if(c.h.upds > 0, "has updates");
    cx.label_if(c.h.news > 1, "several actors");
    cx.label_if(c.w.max_channels != 1023, "other MaxChannels");
    cx.label_if(c.w.lan, "lan");
}

/// Parses the case and compares with the reference; a fault free history must
/// also parse to the number of frames that were written.
pub fn check(cx: &mut Cx, c: &NetCase) -> Result<Result<Replay, ParseError>, String> {
    let (r, _) = vs_ref(cx, &c.b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    if !c.h.faulty && (c.nf as usize <= c.frames || c.h.marker) {
        let r = r.as_ref().map_err(|e| format!("a well formed history was rejected: {:?}", classify(e)))?;
        let n = r.network_frames.as_ref().map(|f| f.frames.len());
        let want = (c.nf as usize).min(c.frames);
        if n != Some(want) {
            return Err(format!("{n:?} frames, {want} were written"));
        }
    }
    Ok(r)
}

// --------------------------------------------------------------------- C08

fn c08(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    if g.enumerate(64) == 7 {
        return c08_deleted(g, cx);
    }
    if g.enumerate(2048) == 11 {
        return c08_huge(g, cx);
    }
    if g.chance(1, 512) {
        return c08_long(g, cx);
    }
    let wo = WorldOpts { max_attrs: 4, flat: g.bool(), ..WorldOpts::default() };
    let ho = HistOpts { frames: 6, ops: 8, fault: g.chance(1, 3), ..HistOpts::default() };
    let c = net_case(g, &wo, &ho);
    labels(cx, &c);
    if c.h.news > 0 || c.h.faulty {
        sample(cx, &c);
    }
    check(cx, &c)?;
    // the first NumFrames decides, even when it is no number
    if g.chance(1, 16) {
        let v = match g.below(5) {
            0 => HeaderProp::Str(c.nf.to_string()),
            1 => HeaderProp::Name("1".into()),
            2 => HeaderProp::QWord(c.nf as u64),
            3 => HeaderProp::Float(c.nf as f32),
            _ => HeaderProp::Int(g.range(0, c.nf.max(0) as i64) as i32),
        };
        let mut s = c.w.spec(None, &c.h.w);
        s.props.push(simple_prop("NumFrames", &v));
        for _ in 0..g.usize(1, 2) {
            s.props.push(simple_prop("NumFrames", &HeaderProp::Int(c.nf)));
        }
        let (r, _) = vs_ref(cx, &s.build().bytes, CrcCheck::Always, NetworkParse::Always)?;
        if let (Ok(r), false) = (&r, matches!(v, HeaderProp::Int(_))) {
            if r.network_frames.as_ref().is_none_or(|f| !f.frames.is_empty()) {
                return Err("frames although the first NumFrames is no number".into());
            }
        }
        cx.label("several NumFrames");
        cx.evals += 1;
    }
    // the same bytes limited to fewer frames give a prefix of the frames
    if !c.h.faulty && c.frames > 1 && c.nf as usize >= c.frames {
        let k = g.usize(0, c.frames - 1);
        let b = c.w.spec(Some(k as i32), &c.h.w).build();
        let (a, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
        let full = must(&c.b.bytes).ok().and_then(|r| r.network_frames);
        if let (Ok(a), Some(full)) = (a, full) {
            let a = a.network_frames.unwrap().frames;
            if a.len() != k {
                return Err(format!("{} frames for NumFrames {k}", a.len()));
            }
            same("frames of a shorter NumFrames", &a, &full.frames[..k].to_vec())?;
        }
        cx.evals += 1;
    }
    cx.evals += 1;
    Ok(())
}

/// Histories of hundreds of frames or hundreds of actors.
fn c08_long(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let wo = WorldOpts { max_attrs: 4, flat: g.bool(), ..WorldOpts::default() };
    let mut w = world(g, &wo);
    let top = i64::from(w.max_channels).min(4000) - 1;
    if w.actors.is_empty() || top < 2 {
        return Ok(());
    }
    let n = *g.pick(&[60usize, 250, 1000]);
    for _ in 0..n {
        w.ids.push(g.range(0, top) as i32);
    }
    let (lo, hi, ops) = *g.pick(&[(200usize, 400usize, 6usize), (1000, 1500, 2), (2, 4, 900), (1, 1, 3000)]);
    let ho = HistOpts { min_frames: lo, frames: hi, ops, fault: g.chance(1, 4), ..HistOpts::default() };
    let c = net_case_in(g, w, &ho);
    labels(cx, &c);
    cx.label(if lo >= 200 { "200 to 1,500 frames" } else { "frames with hundreds of changes" });
    cx.label_if(c.h.news > 500, "more than 500 new actors");
    sample(cx, &c);
    check(cx, &c)?;
    cx.evals += 1;
    Ok(())
}

/// Histories with more frames, or more changes in a frame, than fit in 15 or 16 bits.
fn c08_huge(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let w = world(g, &WorldOpts { max_attrs: 3, actors: 2, flat: true, unknown: false, ..WorldOpts::default() });
    if w.actors.is_empty() || w.max_channels < 3 || w.max_channels > 5_000 {
        return Ok(());
    }
    let obj = *g.pick(&w.actors);
    let id = *g.pick(&w.ids);
    let cache = w.res.caches[obj as usize].as_ref().unwrap();
    let usable: Vec<(i32, Kind)> = cache
        .attrs
        .iter()
        .filter(|(s, (_, k))| **s >= 0 && **s < cache.max() && matches!(k, Kind::Boolean | Kind::Byte | Kind::Int | Kind::Float | Kind::ActiveActor | Kind::Enum))
        .map(|(s, (_, k))| (*s, *k))
        .collect();
    let what = g.below(4);
    let n = *g.pick(&[33_000u32, 66_000, 40_000, 131_100]);
    let mut o = BitW::new();
    let mut t = 1.0f32;
    let time = |o: &mut BitW, t: &mut f32| {
        *t += 0.03125;
        o.f32(*t);
        o.f32(0.03125);
    };
    time(&mut o, &mut t);
    put_new(g, &mut o, &w, id, obj);
    let update = |g: &mut G, o: &mut BitW| {
        o.bit(true);
        o.int_max(id as u64, u64::from(w.max_channels));
        o.bit(true);
        o.bit(false);
        if cache.max() >= 0 && !usable.is_empty() {
            let (s, k) = usable[(o.len % usable.len()) as usize];
            o.bit(true);
            o.int_max(s as u64, cache.max() as u64);
            put_attr(g, k, &w.ctx(), o);
        }
        o.bit(false);
    };
    update(g, &mut o);
    let mut frames = 1;
    match what {
        0 => {
            for i in 0..n {
                o.bit(false);
                time(&mut o, &mut t);
                frames += 1;
                if i % 8_192 == 8_190 {
                    update(g, &mut o);
                }
            }
            cx.label("more than 32,767 frames");
        }
        1 => {
            let mut u = BitW::new();
            update(g, &mut u);
            for _ in 0..n {
                o.append(&u);
            }
            cx.label("more than 32,767 updates in a frame");
        }
        2 => {
            for i in 0..n {
                o.bit(true);
                o.int_max(u64::from(i * 7 % w.max_channels), u64::from(w.max_channels));
                o.bit(false);
            }
            put_new(g, &mut o, &w, id, obj);
            cx.label("more than 32,767 deletions in a frame");
        }
        _ => {
            let mut u = BitW::new();
            put_new(g, &mut u, &w, id, obj);
            for _ in 0..n {
                o.append(&u);
            }
            cx.label("more than 32,767 new actors in a frame");
        }
    }
    update(g, &mut o);
    o.bit(false);
    time(&mut o, &mut t);
    update(g, &mut o);
    o.bit(false);
    frames += 1;
    let b = w.spec(Some(frames), &o).build();
    cx.nontrivial(format!("{what} {n} {id} {obj} {}", b.bytes.len()).as_bytes());
    cx.sample = Some(format!("{frames} frames, {} bytes of network data", o.bytes.len()));
    cx.attach("input", &b.bytes);
    cx.evals += 1;
    let (r, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    let got = r.map_err(|e| format!("rejected: {}", e.to_string().chars().take(300).collect::<String>()))?;
    let got = got.network_frames.map_or(0, |f| f.frames.len());
    if got != frames as usize {
        return Err(format!("{got} frames instead of {frames}"));
    }
    Ok(())
}

/// Updates of an actor after its deletion, at every kind of id.
fn c08_deleted(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let wo = WorldOpts { max_attrs: 3, actors: 2, flat: true, unknown: false, ..WorldOpts::default() };
    let w = world(g, &wo);
    if w.actors.is_empty() || w.max_channels < 3 {
        return Ok(());
    }
    let obj = *g.pick(&w.actors);
    let id = *g.pick(&w.ids);
    let mut o = BitW::new();
    let again = g.bool();
    o.f32(1.0);
    o.f32(0.1);
    put_new(g, &mut o, &w, id, obj);
    if again {
        o.bit(false);
        o.f32(1.1);
        o.f32(0.1);
    }
    o.bit(true);
    o.int_max(id as u64, u64::from(w.max_channels));
    o.bit(false);
    if g.bool() {
        o.bit(false);
        o.f32(1.2);
        o.f32(0.1);
    }
    o.bit(true);
    o.int_max(id as u64, u64::from(w.max_channels));
    o.bit(true);
    o.bit(false);
    o.bit(false);
    o.bit(false);
    for _ in 0..4 {
        o.u64(0);
    }
    let b = w.spec(Some(4), &o).build();
    cx.label(if id < 200 { "update after deletion, id < 200" } else { "update after deletion, id >= 200" });
    cx.nontrivial(&b.bytes);
    let (r, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    if r.is_ok() {
        return Err(format!("update of the deleted actor {id} accepted"));
    }
    Ok(())
}

// --------------------------------------------------------------------- C09

fn c09(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let k = KINDS[g.enumerate(KINDS.len() as u64) as usize];
    let raw = g.chance(1, 4);
    attr_case(g, cx, k, raw)
}

/// One update of an attribute of this kind: written values, or arbitrary bits.
pub fn attr_case(g: &mut G, cx: &mut Cx, k: Kind, raw: bool) -> Result<(), String> {
    let wo = WorldOpts {
        kinds: Some(k),
        min_attrs: 1,
        max_attrs: 2,
        actors: 2,
        unknown: false,
        dup: false,
        flat: true,
        ver: None,
    };
    let w = world(g, &wo);
    let ctx = w.ctx();
    // an actor with a usable stream of this kind
    let mut opts = Vec::new();
    for &obj in &w.actors {
        let c = w.res.caches[obj as usize].as_ref().unwrap();
        for (&s, &(a, kk)) in &c.attrs {
            if kk == k && s >= 0 && s < c.max() {
                opts.push((obj, s, a, c.max()));
            }
        }
    }
    if opts.is_empty() {
        return Ok(());
    }
    let (obj, s, aobj, max) = *g.pick(&opts);
    let id = *g.pick(&w.ids);
    let mut o = BitW::new();
    o.f32(0.5);
    o.f32(0.1);
    put_new(g, &mut o, &w, id, obj);
    o.bit(true);
    o.int_max(id as u64, u64::from(w.max_channels));
    o.bit(true);
    o.bit(false);
    let n = *g.pick(&[1usize, 1, 2, 3]);
    let mut want = Vec::new();
    cx.label(kind_label(k));
    if raw {
        // arbitrary payload bits
        o.bit(true);
        o.int_max(s as u64, max as u64);
        if g.chance(1, 4) {
            // what it holds, but for the sizes of texts
            let mut aw = BitW { spoil: true, ..BitW::new() };
            put_attr(g, k, &ctx, &mut aw);
            o.append(&aw);
            o.bit(false);
            o.bit(g.bool());
            cx.label("texts of invalid size");
        }
        let len = *g.pick(&[0usize, 1, 4, 12, 40, 120, 300]);
        let bytes = match g.below(3) {
            0 => g.bytes(len),
            1 => vec![0xff; len],
            _ => (0..len).map(|_| *g.pick(&[0u8, 0xff, 1, 0x80, 0x40, 0x0b, 7, 11])).collect(),
        };
        o.raw(&bytes);
        cx.label("arbitrary payload bits");
    } else {
        for _ in 0..n {
            o.bit(true);
            o.int_max(s as u64, max as u64);
            let mut aw = BitW::new();
            put_attr(g, k, &ctx, &mut aw);
            want.push(check_writer(k, &ctx, &aw));
            o.append(&aw);
        }
        o.bit(false);
        // something that shows misalignment
        o.bit(true);
        o.int_max(id as u64, u64::from(w.max_channels));
        o.bit(false);
        o.bit(false);
        if g.bool() {
            for _ in 0..3 {
                o.u64(g.below(0));
            }
        }
    }
    let b = w.spec(Some(1), &o).build();
    cx.nontrivial(&b.bytes);
    if cx.sample.is_none() {
        cx.sample = Some(format!(
            "{k:?} at version {}.{}.{}{}, stream {s} of {max}: {}",
            w.ver.major,
            w.ver.minor,
            w.ver.net,
            if w.rl223 { " (v2.23+)" } else { "" },
            want.first().map(|a| format!("{a:?}").chars().take(120).collect::<String>()).unwrap_or_else(|| "arbitrary bits".into())
        ));
    }
    let (r, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    if !raw {
        let r = r.map_err(|e| format!("{k:?}: rejected with {:?}", classify(&e)))?;
        let f = r.network_frames.unwrap().frames;
        if f.len() != 1 || f[0].updated_actors.len() != n || f[0].deleted_actors != vec![ActorId(id)] {
            return Err(format!("{k:?}: frame has {} updates, {n} were written", f.first().map_or(0, |f| f.updated_actors.len())));
        }
        for (u, a) in f[0].updated_actors.iter().zip(&want) {
            let x = UpdatedAttribute {
                actor_id: ActorId(id),
                stream_id: StreamId(s),
                object_id: ObjectId(aobj),
                attribute: a.clone(),
            };
            same("update", u, &x)?;
        }
    }
    Ok(())
}

pub fn kind_label(k: Kind) -> &'static str {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<&'static str>> = OnceLock::new();
    L.get_or_init(|| KINDS.iter().map(|k| &*Box::leak(format!("{k:?}").into_boxed_str())).collect())
        [KINDS.iter().position(|x| *x == k).unwrap()]
}

// --------------------------------------------------------------------- C10

fn c10(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let wo = WorldOpts { min_attrs: 2, max_attrs: 24, actors: 4, flat: g.chance(1, 5), ..WorldOpts::default() };
    let ho = HistOpts { frames: 3, ops: 12, fault: g.chance(1, 4), marker: false, ..HistOpts::default() };
    let c = net_case(g, &wo, &ho);
    labels(cx, &c);
    let mut inherited = 0;
    let mut over = 0;
    let mut owners = BTreeSet::new();
    for e in &c.w.cache {
        if !owners.insert(e.object_ind) {
            cx.label("several cache entries for one class");
        }
    }
    for &a in &c.w.actors {
        let line = lineage(&c.w.objects[a as usize]);
        let present: Vec<i32> =
            line.iter().filter_map(|n| c.w.objects.iter().position(|o| o == n).map(|i| i as i32)).collect();
        if present.len() < line.len() {
            cx.label("ancestor not listed");
        }
        let n: usize = c.w.cache.iter().filter(|e| present.contains(&e.object_ind) && e.object_ind != a).map(|e| e.properties.len()).sum();
        inherited += n;
        let total: usize = c.w.cache.iter().filter(|e| present.contains(&e.object_ind)).map(|e| e.properties.len()).sum();
        let distinct = c.w.res.caches[a as usize].as_ref().unwrap().attrs.len();
        if total > distinct {
            over += 1;
        }
        if c.w.objects[a as usize].contains(LEVEL) {
            cx.label("level instance");
        }
    }
    cx.label_if(inherited > 0, "inherited attributes");
    cx.label_if(over > 0, "stream id redefined by a descendant");
    if c.h.upds > 0 && inherited > 0 {
        sample(cx, &c);
    }
    let r = check(cx, &c)?;
    // Metamorphic: the class hierarchy does not depend on parent_id/cache_id,
    // on the order of cache entries of different classes, or on objects added
    // at the end of the list.
    let mut w2 = c.w.spec(Some(c.nf), &c.h.w);
    for e in &mut w2.cache {
        e.parent_id = g.range(0, 40) as i32;
        e.cache_id = g.range(0, 40) as i32;
    }
    if owners.len() == c.w.cache.len() {
        shuffle(g, &mut w2.cache);
    }
    w2.objects.push(Text::plain("Foo.Bar_Unrelated"));
    w2.levels.push(Text::plain("x"));
    let d2 = w2.build().bytes;
    let r2 = must(&d2);
    cx.evals += 2;
    match (&r, &r2) {
        (Ok(a), Ok(b)) => same_frames(&b.network_frames, &a.network_frames)
            .map_err(|m| format!("unrelated changes to the footer alter the frames: {m}"))?,
        (Err(a), Err(b)) => {
            let (x, y) = (classify(a), classify(b));
            // the object count is part of what makes an id out of range
            if x != y && !c.h.faulty {
                return Err(format!("unrelated changes to the footer alter the error: {x:?} / {y:?}"));
            }
        }
        _ => {
            if !c.h.faulty {
                return Err("unrelated changes to the footer alter the outcome".into());
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C11

fn c11(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    // one class and a random subset of its ancestors
    let v = version(g);
    let nm = match g.below(4) {
        0 => level_instance(g),
        1 => (*g.pick(SPAWNS)).0.to_string(),
        _ => PARENTS[g.below(PARENTS.len() as u64) as usize].0.to_string(),
    };
    let mut objects = vec![nm.clone()];
    let mut cur = nm.clone();
    let mut dropped = false;
    while let Some(p) = parent_of(&cur) {
        cur = p.to_string();
        if g.below(8) < 6 {
            if !objects.contains(&cur) {
                objects.push(cur.clone());
            }
        } else {
            dropped = true;
        }
    }
    for _ in 0..g.usize(0, 3) {
        let s = match g.below(3) {
            0 => (*g.pick(SPAWNS)).0.to_string(),
            1 => level_instance(g),
            _ => PARENTS[g.below(PARENTS.len() as u64) as usize].0.to_string(),
        };
        if !objects.contains(&s) {
            objects.push(s);
        }
    }
    if g.bool() {
        shuffle(g, &mut objects);
    }
    let mt = match g.below(5) {
        4 => Some(HeaderProp::Name((*g.pick(&["LAN", "lan", "Lan ", " Lan", "La", "Lan2", "LAn", "Private"])).into())),
        0 => Some(HeaderProp::Str("Lan".into())),
        1 => Some(HeaderProp::Str("Online".into())),
        2 => Some(HeaderProp::Name("Lan".into())),
        _ => None,
    };
    let lan = matches!(&mt, Some(HeaderProp::Str(s)) | Some(HeaderProp::Name(s)) if s == "Lan");
    let w = finish_world(v, objects, vec![], mt, None, None, lan, false, 1023);
    let mut o = BitW::new();
    o.f32(0.5);
    o.f32(0.25);
    let mut n = 0;
    for _ in 0..g.usize(1, 4) {
        if w.actors.is_empty() {
            break;
        }
        let obj = if n == 0 {
            w.objects.iter().position(|x| *x == nm).map(|x| x as i32).filter(|x| w.actors.contains(x)).unwrap_or(w.actors[0])
        } else {
            *g.pick(&w.actors)
        };
        let id = *g.pick(&w.ids);
        put_new(g, &mut o, &w, id, obj);
        match w.res.spawns[obj as usize] {
            Spawn::None => cx.label("spawns without trajectory"),
            Spawn::Location => cx.label("spawns with location"),
            Spawn::LocationAndRotation => cx.label("spawns with location and rotation"),
        }
        n += 1;
    }
    // spawns of something without attributes
    if g.chance(1, 8) {
        let none: Vec<i32> = (0..w.objects.len() as i32).filter(|i| !w.actors.contains(i)).collect();
        if let Some(&x) = none.first() {
            put_new(g, &mut o, &w, 1, x);
            cx.label("class outside the hierarchy");
        }
    }
    o.bit(false);
    let named = v >= ver(868, 20, 0) || (v >= ver(868, 14, 0) && !lan);
    cx.label(if named { "name id present" } else { "name id absent" });
    cx.label_if(dropped, "ancestor not listed");
    if g.bool() {
        for _ in 0..4 {
            o.u64(g.below(0));
        }
    } else if g.chance(1, 4) {
        let cut = g.usize(0, o.bytes.len());
        o.bytes.truncate(cut);
        cx.label("truncated");
    }
    let b = w.spec(Some(1.min(o.bytes.len() as i32)), &o).build();
    if n > 0 {
        cx.nontrivial(&b.bytes);
        cx.sample = Some(format!("{n} spawns, first class {nm:?}, version {}.{}.{} lan {lan}", v.major, v.minor, v.net));
    }
    vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always)?;
    Ok(())
}

// --------------------------------------------------------------------- C20

fn c20_points() -> u64 {
    (ATTRS.len() + PARENTS.len() + SPAWNS.len()) as u64
}

/// Each entry of the catalogue, decoded through a whole file.
fn c20(g: &mut G, cx: &mut Cx) -> Result<(), String> {
    let i = g.enumerate(c20_points()) as usize;
    let v = if g.bool() { version(g) } else { ver(868, 32, 10) };
    if i < ATTRS.len() {
        let (name, kind) = ATTRS[i];
        cx.label("attribute");
        let class = "TAGame.Ball_TA";
        let objects: Vec<String> = ["Core.Object", "Engine.Actor", class, name].iter().map(|s| s.to_string()).collect();
        let s = g.usize(0, 100) as i32;
        let cache = vec![ClassNetCache { object_ind: 1, parent_id: 0, cache_id: 1, properties: vec![CacheProp { object_ind: 3, stream_id: s }] }];
        let w = finish_world(v, objects, cache, None, Some(HeaderProp::Str("240101.1.1".into())), None, false, true, 1023);
        let ctx = w.ctx();
        let mut o = BitW::new();
        o.f32(0.5);
        o.f32(0.25);
        put_new(g, &mut o, &w, 5, 2);
        o.bit(true);
        o.int_max(5, 1023);
        o.bit(true);
        o.bit(false);
        o.bit(true);
        o.int_max(s as u64, s as u64 + 1);
        let mut aw = BitW::new();
        put_attr(g, kind, &ctx, &mut aw);
        let want = check_writer(kind, &ctx, &aw);
        o.append(&aw);
        o.bit(false);
        o.bit(false);
        let b = w.spec(Some(1), &o).build();
        cx.nontrivial(&b.bytes);
        cx.sample = Some(format!("attribute {name} decodes as {kind:?}"));
        let (r, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always).map_err(|m| format!("{name}: {m}"))?;
        let r = r.map_err(|e| format!("{name}: rejected with {:?}", classify(&e)))?;
        let f = r.network_frames.unwrap().frames;
        let u = f[0].updated_actors.first().ok_or_else(|| format!("{name}: no update"))?;
        same(name, &u.attribute, &want)
    } else {
        // a class: it spawns as the catalogue says and inherits from each of its ancestors
        let name = if i < ATTRS.len() + PARENTS.len() {
            cx.label("class");
            PARENTS[i - ATTRS.len()].0
        } else {
            cx.label("spawn kind");
            SPAWNS[i - ATTRS.len() - PARENTS.len()].0
        };
        let mut objects: Vec<String> = vec!["Core.Object".into()];
        let mut chain = vec![name.to_string()];
        let mut cur = name.to_string();
        while let Some(p) = parent_of(&cur) {
            cur = p.to_string();
            chain.push(cur.clone());
        }
        for c in &chain {
            if !objects.contains(c) {
                objects.push(c.clone());
            }
        }
        // one marker attribute per listed ancestor
        let bools = names_of(Kind::Boolean);
        let mut cache = Vec::new();
        let line = lineage(name);
        for (k, anc) in line.iter().enumerate() {
            let a = objects.len() as i32;
            objects.push(bools[k % bools.len()].to_string());
            let ix = objects.iter().position(|x| x == anc).unwrap() as i32;
            cache.push(ClassNetCache { object_ind: ix, parent_id: 0, cache_id: 0, properties: vec![CacheProp { object_ind: a, stream_id: k as i32 + 3 }] });
        }
        let w = finish_world(v, objects, cache, None, None, None, false, false, 1023);
        let ix = w.objects.iter().position(|x| x == name).unwrap() as i32;
        let mut o = BitW::new();
        o.f32(0.5);
        o.f32(0.25);
        put_new(g, &mut o, &w, 5, ix);
        if !line.is_empty() {
            o.bit(true);
            o.int_max(5, 1023);
            o.bit(true);
            o.bit(false);
            for k in 0..line.len() {
                o.bit(true);
                o.int_max(k as u64 + 3, line.len() as u64 + 3);
                o.bit(k % 2 == 0);
            }
            o.bit(false);
        }
        o.bit(false);
        for _ in 0..4 {
            o.u64(0x5a5a_a5a5_1234_4321);
        }
        let b = w.spec(Some(1), &o).build();
        cx.nontrivial(&b.bytes);
        cx.sample = Some(format!("class {name} with {} ancestors spawns as {:?}", line.len(), w.res.spawns[ix as usize]));
        let (r, _) = vs_ref(cx, &b.bytes, CrcCheck::Always, NetworkParse::Always).map_err(|m| format!("{name}: {m}"))?;
        if !line.is_empty() {
            let r = r.map_err(|e| format!("{name}: rejected with {:?}", classify(&e)))?;
            let n = r.network_frames.unwrap().frames[0].updated_actors.len();
            if n != line.len() {
                return Err(format!("{name}: {n} updates of {}", line.len()));
            }
        }
        Ok(())
    }
}

pub fn props() -> Vec<Prop> {
    let base: &'static [&'static str] = &[
        "the reference decoder (harness/src/refdec.rs) states the format correctly; it agrees with every real replay in assets/replays",
        "short-of-data errors within 128 bits of the end of the network data may name any element",
    ];
    vec![
        Prop {
            id: "C08",
            title: "Frames replay the actor history written in the network data",
            rule: "a generated history that spawns at least one actor or carries an injected fault; distinct by file content",
            case: c08,
            quick: 150_000,
            thorough: 7_500_000,
            guided: 16_000,
            enumerated: none,
            assumptions: base,
        },
        Prop {
            id: "C09",
            title: "Attribute payloads decode to the values written",
            rule: "a file with at least one update of the attribute kind under test, payload generated or arbitrary; distinct by file content",
            case: c09,
            quick: 300_000,
            thorough: 15_000_000,
            guided: 40_000,
            enumerated: || KINDS.len() as u64,
            assumptions: base,
        },
        Prop {
            id: "C10",
            title: "Stream ids resolve through the class hierarchy",
            rule: "a history with updates on an actor class that inherits attributes from a listed ancestor; distinct by file content",
            case: c10,
            quick: 100_000,
            thorough: 5_000_000,
            guided: 10_000,
            enumerated: none,
            assumptions: base,
        },
        Prop {
            id: "C11",
            title: "New actors carry the spawn data their class and version call for",
            rule: "at least one actor spawned; distinct by file content",
            case: c11,
            quick: 700_000,
            thorough: 35_000_000,
            guided: 300_000,
            enumerated: none,
            assumptions: base,
        },
        Prop {
            id: "C20",
            title: "Every catalogued attribute, class and spawn kind keeps its meaning",
            rule: "each catalogue entry decoded through a whole replay; distinct by file content",
            case: c20,
            quick: 300_000,
            thorough: 15_000_000,
            guided: 150_000,
            enumerated: c20_points,
            assumptions: &["harness/src/tables.rs is the catalogue as of the pinned commit"],
        },
    ]
}
