//! An independent, slow reference decoder for the replay format, reading one
//! bit / byte at a time.  It shares no code with boxcars except the output
//! types.

use crate::model::*;
use crate::wire::{crc_ref, dec_utf16, dec_w1252, units_of};
use boxcars::*;
use std::collections::HashMap;

// ------------------------------------------------------------------ errors

#[derive(Debug, Clone, PartialEq)]
pub enum RErr {
    Insufficient,
    TextTooLarge(i32),
    ListTooLarge,
    Utf8,
    Unexpected(String),
    CrcMismatch(u32, u32),
    Corrupt(&'static str, Box<RErr>),
    Net(NErr),
}

#[derive(Debug, Clone, PartialEq)]
pub enum NErr {
    StreamTooLarge(i32, i32),
    TooManyFrames(i32),
    Frame(FErr),
}

#[derive(Debug, Clone, PartialEq)]
pub enum FErr {
    NotEnough,
    Time,
    Delta,
    ObjectRange(i32),
    MissingActor(i32),
    MissingCache(i32, i32),
    MissingAttr(i32, i32, i32),
    Attr(i32, i32, i32, AErr),
}

#[derive(Debug, Clone, PartialEq)]
pub enum AErr {
    NotEnough,
    RemoteId(u8),
    BigString(i32),
}

// -------------------------------------------------------------------- bits

#[derive(Clone)]
pub struct Bits<'a> {
    d: &'a [u8],
    pub pos: usize,
}

type O<T> = Option<T>;

impl<'a> Bits<'a> {
    pub fn new(d: &'a [u8]) -> Bits<'a> {
        Bits { d, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    pub fn bit(&mut self) -> O<bool> {
        let b = *self.d.get(self.pos / 8)? >> (self.pos % 8) & 1 == 1;
        self.pos += 1;
        Some(b)
    }
    pub fn n(&mut self, n: u32) -> O<u64> {
        if self.left() < n as usize {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= u64::from(self.bit()?) << i;
        }
        Some(v)
    }
    pub fn u8(&mut self) -> O<u8> {
        self.n(8).map(|x| x as u8)
    }
    pub fn u32(&mut self) -> O<u32> {
        self.n(32).map(|x| x as u32)
    }
    pub fn i32(&mut self) -> O<i32> {
        self.u32().map(|x| x as i32)
    }
    pub fn f32(&mut self) -> O<f32> {
        self.u32().map(f32::from_bits)
    }
    pub fn u64(&mut self) -> O<u64> {
        self.n(64)
    }
    pub fn bytes(&mut self, n: usize) -> O<Vec<u8>> {
        if self.left() < n * 8 {
            return None;
        }
        (0..n).map(|_| self.u8()).collect()
    }
    /// Unreal's SerializeInt.
    pub fn int_max(&mut self, max: u64) -> O<u64> {
        let mut v = 0u64;
        let mut mask = 1u64;
        while v + mask < max {
            if self.bit()? {
                v |= mask;
            }
            mask <<= 1;
        }
        Some(v)
    }
}

pub fn r_vec3i(b: &mut Bits, v: &Ver) -> O<Vector3i> {
    let s = b.int_max(v.vec_max())? as u32;
    let bias = 1i64 << (s + 1);
    let n = s + 2;
    let mut c = [0i32; 3];
    for x in c.iter_mut() {
        *x = (b.n(n)? as i64 - bias) as i32;
    }
    Some(Vector3i { x: c[0], y: c[1], z: c[2] })
}

pub fn vec3f(v: Vector3i) -> Vector3f {
    Vector3f { x: v.x as f32 / 100.0, y: v.y as f32 / 100.0, z: v.z as f32 / 100.0 }
}

fn r_vec3f(b: &mut Bits, v: &Ver) -> O<Vector3f> {
    r_vec3i(b, v).map(vec3f)
}

pub fn r_rot(b: &mut Bits) -> O<Rotation> {
    let mut c = [None; 3];
    for x in c.iter_mut() {
        *x = if b.bit()? { Some(b.u8()? as i8) } else { None };
    }
    Some(Rotation { yaw: c[0], pitch: c[1], roll: c[2] })
}

/// One component of a "smallest three" quaternion.
pub fn quat_part(raw: u32) -> f32 {
    let pos = raw as f32 / 262_143.0f32;
    ((pos - 0.5) * 2.0) * std::f32::consts::FRAC_1_SQRT_2
}

pub fn quat_from(largest: u32, raw: [u32; 3]) -> Quaternion {
    let [a, b, c] = raw.map(quat_part);
    // sqrt(1 - a^2 - b^2 - c^2), each step rounded once
    let s = c.mul_add(-c, b.mul_add(-b, a.mul_add(-a, 1.0))).sqrt();
    let q = match largest {
        0 => [s, a, b, c],
        1 => [a, s, b, c],
        2 => [a, b, s, c],
        _ => [a, b, c, s],
    };
    Quaternion { x: q[0], y: q[1], z: q[2], w: q[3] }
}

pub fn quat_old(raw: [u16; 3]) -> Quaternion {
    let f = |r: u16| (i32::from(r) - 32768) as f32 * (1.0f32 / 32767.0f32);
    Quaternion { x: f(raw[0]), y: f(raw[1]), z: f(raw[2]), w: 0.0 }
}

fn r_quat(b: &mut Bits, v: &Ver) -> O<Quaternion> {
    if v.net >= 7 {
        let l = b.n(2)? as u32;
        Some(quat_from(l, [b.n(18)? as u32, b.n(18)? as u32, b.n(18)? as u32]))
    } else {
        Some(quat_old([b.n(16)? as u16, b.n(16)? as u16, b.n(16)? as u16]))
    }
}

// -------------------------------------------------------------- attributes

pub struct Ctx {
    pub ver: Ver,
    pub rl223: bool,
    pub product: ProductIds,
}

type A<T> = Result<T, AErr>;

fn need<T>(o: O<T>) -> A<T> {
    o.ok_or(AErr::NotEnough)
}

fn r_text(b: &mut Bits) -> A<String> {
    let size = need(b.i32())?;
    let bytes = if size < 0 { i64::from(size) * -2 } else { i64::from(size) };
    if bytes > 1024 {
        return Err(AErr::BigString(size));
    }
    if size == 0 {
        return Ok(String::new());
    }
    let raw = b.bytes(bytes as usize).ok_or(AErr::BigString(size))?;
    Ok(if size < 0 {
        let u = units_of(&raw);
        dec_utf16(&u[..u.len() - 1])
    } else {
        dec_w1252(&raw[..raw.len() - 1])
    })
}

fn r_active(b: &mut Bits) -> O<ActiveActor> {
    Some(ActiveActor { active: b.bit()?, actor: ActorId(b.i32()?) })
}

fn r_loadout(b: &mut Bits) -> O<Loadout> {
    let version = b.u8()?;
    let mut l = Loadout {
        version,
        body: b.u32()?,
        decal: b.u32()?,
        wheels: b.u32()?,
        rocket_trail: b.u32()?,
        antenna: b.u32()?,
        topper: b.u32()?,
        unknown1: b.u32()?,
        unknown2: None,
        engine_audio: None,
        trail: None,
        goal_explosion: None,
        banner: None,
        product_id: None,
    };
    if version >= 11 {
        l.unknown2 = Some(b.u32()?);
    }
    if version >= 16 {
        l.engine_audio = Some(b.u32()?);
        l.trail = Some(b.u32()?);
        l.goal_explosion = Some(b.u32()?);
    }
    if version >= 17 {
        l.banner = Some(b.u32()?);
    }
    if version >= 19 {
        l.product_id = Some(b.u32()?);
    }
    if version >= 22 {
        b.n(32)?;
        b.n(32)?;
        b.n(32)?;
    }
    Some(l)
}

fn r_unique_rest(b: &mut Bits, system_id: u8, v: &Ver) -> A<UniqueId> {
    let remote_id = match system_id {
        0 => RemoteId::SplitScreen(need(b.n(24))? as u32),
        1 => RemoteId::Steam(need(b.u64())?),
        2 => {
            let name = need(b.bytes(16))?;
            let end = name.iter().position(|&x| x == 0).unwrap_or(16);
            let unknown1 = need(b.bytes(if v.net >= 1 { 16 } else { 8 }))?;
            RemoteId::PlayStation(Ps4Id { name: dec_w1252(&name[..end]), unknown1, online_id: need(b.u64())? })
        }
        4 => RemoteId::Xbox(need(b.u64())?),
        5 => RemoteId::QQ(need(b.u64())?),
        6 => {
            let online_id = need(b.u64())?;
            RemoteId::Switch(SwitchId { online_id, unknown1: need(b.bytes(24))? })
        }
        7 => {
            let online_id = need(b.u64())?;
            let unknown1 = if v.net < 10 { need(b.bytes(24))? } else { Vec::new() };
            RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
        }
        11 => RemoteId::Epic(r_text(b)?),
        x => return Err(AErr::RemoteId(x)),
    };
    Ok(UniqueId { system_id, remote_id, local_id: need(b.u8())? })
}

fn r_products(b: &mut Bits, c: &Ctx) -> O<Vec<Vec<Product_>>> {
    let n = b.u8()?;
    let mut out = Vec::new();
    for _ in 0..n {
        let m = b.u8()?;
        let mut v = Vec::new();
        for _ in 0..m {
            let unknown = b.bit()?;
            let obj = b.i32()?;
            v.push(Product_ { unknown, object_ind: ObjectId(obj), value: r_product(b, obj, c)? });
        }
        out.push(v);
    }
    Some(out)
}

pub type Product_ = boxcars::attributes::Product;

fn r_product(b: &mut Bits, obj: i32, c: &Ctx) -> O<ProductValue> {
    let is = |x: Option<i32>| x == Some(obj);
    let v = c.ver;
    Some(if is(c.product.color) {
        if v >= ver(868, 23, 8) {
            ProductValue::NewColor(b.u32()?)
        } else if b.bit()? {
            ProductValue::OldColor(b.n(31)? as u32)
        } else {
            ProductValue::NoColor
        }
    } else if is(c.product.painted) {
        if v >= ver(868, 18, 0) {
            ProductValue::NewPaint(b.n(31)? as u32)
        } else {
            ProductValue::OldPaint(b.int_max(14)? as u32)
        }
    } else if is(c.product.title) {
        ProductValue::Title(r_text(b).ok()?)
    } else if is(c.product.special) {
        ProductValue::SpecialEdition(b.n(31)? as u32)
    } else if is(c.product.team) {
        if v >= ver(868, 18, 0) {
            ProductValue::NewTeamEdition(b.n(31)? as u32)
        } else {
            ProductValue::OldTeamEdition(b.int_max(14)? as u32)
        }
    } else {
        ProductValue::Absent
    })
}

pub fn r_attr(k: Kind, b: &mut Bits, c: &Ctx) -> A<Attribute> {
    let v = &c.ver;
    match k {
        Kind::String => return r_text(b).map(Attribute::String),
        Kind::QWordString if c.rl223 => return r_text(b).map(Attribute::String),
        Kind::UniqueId => {
            let s = need(b.u8())?;
            return r_unique_rest(b, s, v).map(|u| Attribute::UniqueId(Box::new(u)));
        }
        Kind::PartyLeader => {
            let s = need(b.u8())?;
            if s == 0 {
                return Ok(Attribute::PartyLeader(None));
            }
            return r_unique_rest(b, s, v).map(|u| Attribute::PartyLeader(Some(Box::new(u))));
        }
        Kind::Reservation => {
            let number = need(b.n(3))? as u32;
            let s = need(b.u8())?;
            let unique_id = r_unique_rest(b, s, v)?;
            let name = if s != 0 {
                Some(r_text(b)?)
            } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                let mut n = String::new();
                while n.len() < 255 {
                    let c = need(b.u8())?;
                    if c == 0 {
                        break;
                    }
                    n.push(c as char);
                }
                Some(n)
            } else {
                None
            };
            let unknown1 = need(b.bit())?;
            let unknown2 = need(b.bit())?;
            let unknown3 = if *v >= ver(868, 12, 0) { Some(need(b.n(6))? as u8) } else { None };
            return Ok(Attribute::Reservation(Box::new(Reservation {
                number,
                unique_id,
                name,
                unknown1,
                unknown2,
                unknown3,
            })));
        }
        Kind::PrivateMatchSettings => {
            let mutators = r_text(b)?;
            let joinable_by = need(b.u32())?;
            let max_players = need(b.u32())?;
            let game_name = r_text(b)?;
            let password = r_text(b)?;
            let flag = need(b.bit())?;
            return Ok(Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
                mutators,
                joinable_by,
                max_players,
                game_name,
                password,
                flag,
            })));
        }
        Kind::RepStatTitle => {
            let unknown = need(b.bit())?;
            let name = r_text(b)?;
            let unknown2 = need(b.bit())?;
            let index = need(b.u32())?;
            let value = need(b.u32())?;
            return Ok(Attribute::RepStatTitle(RepStatTitle { unknown, name, unknown2, index, value }));
        }
        _ => {}
    }
    need(r_plain(k, b, c))
}

fn r_plain(k: Kind, b: &mut Bits, c: &Ctx) -> O<Attribute> {
    let v = &c.ver;
    Some(match k {
        Kind::ActiveActor => Attribute::ActiveActor(r_active(b)?),
        Kind::AppliedDamage => Attribute::AppliedDamage(AppliedDamage {
            id: b.u8()?,
            position: r_vec3f(b, v)?,
            damage_index: b.i32()?,
            total_damage: b.i32()?,
        }),
        Kind::Boolean => Attribute::Boolean(b.bit()?),
        Kind::Byte => Attribute::Byte(b.u8()?),
        Kind::CamSettings => Attribute::CamSettings(Box::new(CamSettings {
            fov: b.f32()?,
            height: b.f32()?,
            angle: b.f32()?,
            distance: b.f32()?,
            stiffness: b.f32()?,
            swivel: b.f32()?,
            transition: if *v >= ver(868, 20, 0) { Some(b.f32()?) } else { None },
        })),
        Kind::ClubColors => Attribute::ClubColors(ClubColors {
            blue_flag: b.bit()?,
            blue_color: b.u8()?,
            orange_flag: b.bit()?,
            orange_color: b.u8()?,
        }),
        Kind::DamageState => Attribute::DamageState(DamageState {
            tile_state: b.u8()?,
            damaged: b.bit()?,
            offender: ActorId(b.i32()?),
            ball_position: r_vec3f(b, v)?,
            direct_hit: b.bit()?,
            unknown1: b.bit()?,
        }),
        Kind::Demolish => Attribute::Demolish(Box::new(Demolish {
            attacker_flag: b.bit()?,
            attacker: ActorId(b.i32()?),
            victim_flag: b.bit()?,
            victim: ActorId(b.i32()?),
            attack_velocity: r_vec3f(b, v)?,
            victim_velocity: r_vec3f(b, v)?,
        })),
        Kind::DemolishExtended => Attribute::DemolishExtended(Box::new(DemolishExtended {
            attacker_pri: r_active(b)?,
            self_demo: r_active(b)?,
            self_demolish: b.bit()?,
            goal_explosion_owner: r_active(b)?,
            attacker: r_active(b)?,
            victim: r_active(b)?,
            attacker_velocity: r_vec3f(b, v)?,
            victim_velocity: r_vec3f(b, v)?,
        })),
        Kind::DemolishFx => Attribute::DemolishFx(Box::new(DemolishFx {
            custom_demo_flag: b.bit()?,
            custom_demo_id: b.i32()?,
            attacker_flag: b.bit()?,
            attacker: ActorId(b.i32()?),
            victim_flag: b.bit()?,
            victim: ActorId(b.i32()?),
            attack_velocity: r_vec3f(b, v)?,
            victim_velocity: r_vec3f(b, v)?,
        })),
        Kind::Enum => Attribute::Enum(b.n(11)? as u16),
        Kind::Explosion => Attribute::Explosion(Explosion {
            flag: b.bit()?,
            actor: ActorId(b.i32()?),
            location: r_vec3f(b, v)?,
        }),
        Kind::ExtendedExplosion => Attribute::ExtendedExplosion(ExtendedExplosion {
            explosion: Explosion { flag: b.bit()?, actor: ActorId(b.i32()?), location: r_vec3f(b, v)? },
            unknown1: b.bit()?,
            secondary_actor: ActorId(b.i32()?),
        }),
        Kind::FlaggedByte => Attribute::FlaggedByte(b.bit()?, b.u8()?),
        Kind::Float => Attribute::Float(b.f32()?),
        Kind::GameMode => {
            let w = if *v >= ver(868, 12, 0) { 8 } else { 2 };
            Attribute::GameMode(w, b.n(u32::from(w))? as u8)
        }
        Kind::Impulse => Attribute::Impulse(Impulse { compressed_rotation: b.i32()?, speed: b.f32()? }),
        Kind::Int => Attribute::Int(b.i32()?),
        Kind::Int64 => Attribute::Int64(b.u64()? as i64),
        Kind::Loadout => Attribute::Loadout(Box::new(r_loadout(b)?)),
        Kind::TeamLoadout => {
            Attribute::TeamLoadout(Box::new(TeamLoadout { blue: r_loadout(b)?, orange: r_loadout(b)? }))
        }
        Kind::LoadoutOnline => Attribute::LoadoutOnline(r_products(b, c)?),
        Kind::LoadoutsOnline => Attribute::LoadoutsOnline(LoadoutsOnline {
            blue: r_products(b, c)?,
            orange: r_products(b, c)?,
            unknown1: b.bit()?,
            unknown2: b.bit()?,
        }),
        Kind::Location => Attribute::Location(r_vec3f(b, v)?),
        Kind::LogoData => Attribute::LogoData(LogoData { logo_id: b.u32()?, swap_colors: b.bit()? }),
        Kind::MusicStinger => {
            Attribute::MusicStinger(MusicStinger { flag: b.bit()?, cue: b.u32()?, trigger: b.u8()? })
        }
        Kind::Pickup => Attribute::Pickup(Pickup {
            instigator: if b.bit()? { Some(ActorId(b.i32()?)) } else { None },
            picked_up: b.bit()?,
        }),
        Kind::PickupNew => Attribute::PickupNew(PickupNew {
            instigator: if b.bit()? { Some(ActorId(b.i32()?)) } else { None },
            picked_up: b.u8()?,
        }),
        Kind::PickupInfo => Attribute::PickupInfo(PickupInfo {
            available_pickups: [r_active(b)?, r_active(b)?, r_active(b)?],
            items_are_preview: b.bit()?,
        }),
        Kind::PlayerHistoryKey => Attribute::PlayerHistoryKey(b.n(14)? as u16),
        Kind::QWordString => Attribute::QWord(b.u64()?),
        Kind::ReplicatedBoost => Attribute::ReplicatedBoost(ReplicatedBoost {
            grant_count: b.u8()?,
            boost_amount: b.u8()?,
            unused1: b.u8()?,
            unused2: b.u8()?,
        }),
        Kind::RigidBody => {
            let sleeping = b.bit()?;
            let location = r_vec3f(b, v)?;
            let rotation = r_quat(b, v)?;
            let (l, a) = if sleeping { (None, None) } else { (Some(r_vec3f(b, v)?), Some(r_vec3f(b, v)?)) };
            Attribute::RigidBody(RigidBody { sleeping, location, rotation, linear_velocity: l, angular_velocity: a })
        }
        Kind::RotationTag => Attribute::Rotation(r_rot(b)?),
        Kind::StatEvent => Attribute::StatEvent(StatEvent { unknown1: b.bit()?, object_id: b.i32()? }),
        Kind::TeamPaint => Attribute::TeamPaint(TeamPaint {
            team: b.u8()?,
            primary_color: b.u8()?,
            accent_color: b.u8()?,
            primary_finish: b.u32()?,
            accent_finish: b.u32()?,
        }),
        Kind::Title => Attribute::Title(
            b.bit()?,
            b.bit()?,
            b.u32()?,
            b.u32()?,
            b.u32()?,
            b.u32()?,
            b.u32()?,
            b.bit()?,
        ),
        Kind::Welded => Attribute::Welded(Welded {
            active: b.bit()?,
            actor: ActorId(b.i32()?),
            offset: r_vec3f(b, v)?,
            mass: b.f32()?,
            rotation: r_rot(b)?,
        }),
        k => unreachable!("{k:?}"),
    })
}

// ------------------------------------------------------------------ frames

pub struct NetIn<'a> {
    pub ver: Ver,
    pub lan: bool,
    pub rl223: bool,
    pub max_channels: u32,
    pub num_frames: usize,
    pub data: &'a [u8],
    pub res: &'a Resolver,
    /// Whether an id below 200 stays updatable after its deletion (known
    /// finding F2); `stale` is set when that made a difference.
    pub keep_low_ids: bool,
    pub stale: std::cell::Cell<bool>,
}

pub struct NetOut {
    pub frames: Vec<Frame>,
    pub err: Option<FErr>,
    /// bit position after each complete frame
    pub ends: Vec<usize>,
    /// bit position where decoding stopped
    pub stop: usize,
    /// the decoder stopped at an end marker
    pub marker: bool,
    /// elements decoded in the frame that failed
    pub part_new: Vec<NewActor>,
    pub part_upd: Vec<UpdatedAttribute>,
    /// the object of every actor alive where decoding stopped
    pub live: HashMap<i32, i32>,
}

pub fn r_frames(n: &NetIn) -> NetOut {
    let mut b = Bits::new(n.data);
    let mut out =
        NetOut { frames: Vec::new(), err: None, ends: Vec::new(), stop: 0, marker: false, part_new: vec![], part_upd: vec![], live: HashMap::new() };
    let mut actors: HashMap<i32, (i32, bool)> = HashMap::new();
    let ctx = Ctx { ver: n.ver, rl223: n.rl223, product: n.res.product };
    while b.left() > 0 && out.frames.len() < n.num_frames {
        let mut f = Frame { time: 0.0, delta: 0.0, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
        match r_frame(n, &ctx, &mut b, &mut actors, &mut f) {
            Ok(true) => {
                out.frames.push(f);
                out.ends.push(b.pos);
            }
            Ok(false) => {
                out.marker = true;
                break;
            }
            Err(e) => {
                out.err = Some(e);
                out.part_new = f.new_actors;
                out.part_upd = f.updated_actors;
                break;
            }
        }
    }
    out.stop = b.pos;
    out.live = actors.into_iter().filter(|(_, a)| a.1).map(|(id, a)| (id, a.0)).collect();
    out
}

fn bad_time(x: f32) -> bool {
    x < 0.0 || (x > 0.0 && x < 1e-10)
}

fn r_frame(
    n: &NetIn,
    ctx: &Ctx,
    b: &mut Bits,
    actors: &mut HashMap<i32, (i32, bool)>,
    f: &mut Frame,
) -> Result<bool, FErr> {
    let ne = FErr::NotEnough;
    f.time = b.f32().ok_or(ne.clone())?;
    if bad_time(f.time) {
        return Err(FErr::Time);
    }
    f.delta = b.f32().ok_or(ne.clone())?;
    if bad_time(f.delta) {
        return Err(FErr::Delta);
    }
    if f.time == 0.0 && f.delta == 0.0 {
        return Ok(false);
    }
    while b.bit().ok_or(ne.clone())? {
        let id = b.int_max(u64::from(n.max_channels)).ok_or(ne.clone())? as i32;
        if !b.bit().ok_or(ne.clone())? {
            f.deleted_actors.push(ActorId(id));
            if let Some(a) = actors.get_mut(&id) {
                a.1 = false;
            }
            continue;
        }
        if b.bit().ok_or(ne.clone())? {
            let named = n.ver >= ver(868, 20, 0) || (n.ver >= ver(868, 14, 0) && !n.lan);
            let name_id = if named { Some(b.i32().ok_or(ne.clone())?) } else { None };
            b.bit().ok_or(ne.clone())?;
            let obj = b.i32().ok_or(ne.clone())?;
            if obj < 0 || obj as usize >= n.res.spawns.len() {
                return Err(FErr::ObjectRange(obj));
            }
            let sp = n.res.spawns[obj as usize];
            let location = match sp {
                Spawn::None => None,
                _ => Some(r_vec3i(b, &n.ver).ok_or(ne.clone())?),
            };
            let rotation = match sp {
                Spawn::LocationAndRotation => Some(r_rot(b).ok_or(ne.clone())?),
                _ => None,
            };
            if n.res.caches[obj as usize].is_none() {
                return Err(FErr::MissingCache(id, obj));
            }
            actors.insert(id, (obj, true));
            f.new_actors.push(NewActor {
                actor_id: ActorId(id),
                name_id,
                object_id: ObjectId(obj),
                initial_trajectory: Trajectory { location, rotation },
            });
        } else {
            let obj = match actors.get(&id) {
                Some((o, true)) => *o,
                Some((o, false)) if id < 200 => {
                    n.stale.set(true);
                    if !n.keep_low_ids {
                        return Err(FErr::MissingActor(id));
                    }
                    *o
                }
                _ => return Err(FErr::MissingActor(id)),
            };
            let cache = n.res.caches[obj as usize].as_ref().unwrap();
            while b.bit().ok_or(ne.clone())? {
                let max = cache.max();
                if max < 0 {
                    return Err(ne);
                }
                let stream = b.int_max(max as u64).ok_or(ne.clone())? as i32;
                let (aobj, kind) = match cache.attrs.get(&stream) {
                    Some(&(o, k)) if k != Kind::Unknown => (o, k),
                    _ => return Err(FErr::MissingAttr(id, obj, stream)),
                };
                let attribute = r_attr(kind, b, ctx).map_err(|e| FErr::Attr(id, obj, stream, e))?;
                f.updated_actors.push(UpdatedAttribute {
                    actor_id: ActorId(id),
                    stream_id: StreamId(stream),
                    object_id: ObjectId(aobj),
                    attribute,
                });
            }
        }
    }
    Ok(true)
}

// ------------------------------------------------------------ header, body

#[derive(Clone)]
pub struct Cur<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    /// the part being read
    pub part: Option<&'static str>,
    /// bytes wanted and left where the input was too short
    pub lack: Option<(i64, usize)>,
}

type R<T> = Result<T, RErr>;

impl<'a> Cur<'a> {
    pub fn left(&self) -> usize {
        self.d.len() - self.pos
    }
    fn short(&mut self, wanted: i64) -> RErr {
        self.lack = Some((wanted, self.left()));
        RErr::Insufficient
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > self.left() as u64 {
            return Err(self.short(n as i64));
        }
        let s = &self.d[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(s)
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from(b[0]) | u32::from(b[1]) << 8 | u32::from(b[2]) << 16 | u32::from(b[3]) << 24)
    }
    fn i32(&mut self) -> R<i32> {
        self.u32().map(|x| x as i32)
    }
    fn f32(&mut self) -> R<f32> {
        self.u32().map(f32::from_bits)
    }
    /// Reads one of the parts an error has a name for.
    fn named<T>(&mut self, part: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let t = f(self);
        if t.is_err() && self.part.is_none() {
            self.part = Some(part);
        }
        t
    }
    fn text(&mut self) -> R<String> {
        let n = self.i32()?;
        if !(-10_000..=10_000).contains(&n) {
            return Err(RErr::TextTooLarge(n));
        }
        if n < 0 {
            let u = units_of(self.take(u64::from(n.unsigned_abs()) * 2)?);
            Ok(dec_utf16(&u[..u.len() - 1]))
        } else {
            let b = self.take(n as u64)?;
            Ok(dec_w1252(&b[..b.len().saturating_sub(1)]))
        }
    }
    fn str_(&mut self) -> R<String> {
        let n = self.i32()?;
        if n < 0 {
            return Err(self.short(i64::from(n)));
        }
        let b = self.take(n as u64)?;
        String::from_utf8(b[..b.len().saturating_sub(1)].to_vec()).map_err(|_| RErr::Utf8)
    }
    fn list<T>(&mut self, f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.i32()?;
        self.listed(n, f)
    }
    fn listed<T>(&mut self, n: i32, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        if !(0..=25_000).contains(&n) {
            return Err(RErr::ListTooLarge);
        }
        (0..n).map(|_| f(self)).collect()
    }
    fn props(&mut self, quirks: bool, depth: usize) -> R<Vec<(String, HeaderProp)>> {
        let mut out = Vec::new();
        loop {
            let key = self.str_()?;
            if key == "None" {
                return Ok(out);
            }
            let kind = self.str_()?;
            self.named("property size", |c| c.take(4))?;
            self.take(4)?;
            let v = match kind.as_str() {
                // the limit that keeps crafted headers from exhausting the stack
                "ArrayProperty" | "StructProperty" if depth >= 64 => return Err(RErr::Unexpected(kind)),
                "BoolProperty" => HeaderProp::Bool(self.take(if quirks { 4 } else { 1 })?[0] == 1),
                "ByteProperty" if quirks => HeaderProp::Byte { kind: self.text()?, value: None },
                "ByteProperty" => {
                    let kind = self.str_()?;
                    if kind == "None" {
                        self.take(1)?;
                        continue;
                    }
                    HeaderProp::Byte { kind, value: Some(self.str_()?) }
                }
                "ArrayProperty" => {
                    let n = self.named("array property size", Cur::i32)?;
                    HeaderProp::Array(self.listed(n, |c| c.props(quirks, depth + 1))?)
                },
                "FloatProperty" => HeaderProp::Float(self.f32()?),
                "IntProperty" => HeaderProp::Int(self.i32()?),
                "QWordProperty" => {
                    let lo = self.u32()?;
                    let hi = self.u32()?;
                    HeaderProp::QWord(u64::from(lo) | u64::from(hi) << 32)
                }
                "NameProperty" => HeaderProp::Name(self.text()?),
                "StrProperty" => HeaderProp::Str(self.text()?),
                "StructProperty" => {
                    let name = self.str_()?;
                    HeaderProp::Struct { name, fields: self.props(quirks, depth + 1)? }
                }
                x => return Err(RErr::Unexpected(x.to_string())),
            };
            out.push((key, v));
        }
    }
}

struct Head {
    ver: Ver,
    game_type: String,
    props: Vec<(String, HeaderProp)>,
}

fn r_header(c: &mut Cur) -> R<Head> {
    let major = c.named("major version", Cur::i32)?;
    let minor = c.named("minor version", Cur::i32)?;
    let mut v = ver(major, minor, 0);
    if v.has_net() {
        v.net = c.named("net version", Cur::i32)?;
    }
    let game_type = c.named("game type", Cur::text)?;
    let props = c.named("properties", |c| c.props(v.quirks(), 0))?;
    Ok(Head { ver: v, game_type, props })
}

pub struct Body<'a> {
    pub levels: Vec<String>,
    pub keyframes: Vec<KeyFrame>,
    pub net: &'a [u8],
    pub net_at: usize,
    pub debug_info: Vec<DebugInfo>,
    pub tick_marks: Vec<TickMark>,
    pub packages: Vec<String>,
    pub objects: Vec<String>,
    pub names: Vec<String>,
    pub class_indices: Vec<ClassIndex>,
    pub net_cache: Vec<ClassNetCache>,
}

fn r_body<'a>(c: &mut Cur<'a>) -> R<Body<'a>> {
    let levels = c.named("level", |c| c.list(|c| c.text()))?;
    let keyframes = c.named("keyframe", |c| {
        c.list(|c| Ok(KeyFrame { time: c.f32()?, frame: c.i32()?, position: c.i32()? }))
    })?;
    let n = c.named("network size", Cur::i32)?;
    let net_at = c.pos;
    let net = c.named("network data", |c| if n < 0 { Err(c.short(i64::from(n))) } else { c.take(n as u64) })?;
    let debug_info = c.named("debug", |c| {
        c.list(|c| Ok(DebugInfo { frame: c.i32()?, user: c.text()?, text: c.text()? }))
    })?;
    let tick_marks = c.named("tick", |c| c.list(|c| Ok(TickMark { description: c.text()?, frame: c.i32()? })))?;
    let packages = c.named("package", |c| c.list(|c| c.text()))?;
    let objects = c.named("object", |c| c.list(|c| c.text()))?;
    let names = c.named("name", |c| c.list(|c| c.text()))?;
    let class_indices =
        c.named("class", |c| c.list(|c| Ok(ClassIndex { class: c.str_()?, index: c.i32()? })))?;
    let net_cache = c.named("cache", |c| {
        c.list(|c| {
            Ok(ClassNetCache {
                object_ind: c.i32()?,
                parent_id: c.i32()?,
                cache_id: c.i32()?,
                properties: c.list(|c| Ok(CacheProp { object_ind: c.i32()?, stream_id: c.i32()? }))?,
            })
        })
    })?;
    Ok(Body { levels, keyframes, net, net_at, debug_info, tick_marks, packages, objects, names, class_indices, net_cache })
}

fn section<'a, T>(
    c: &mut Cur<'a>,
    crc_mode: CrcCheck,
    name: &'static str,
    parts: [&'static str; 3],
    f: impl FnOnce(&mut Cur<'a>) -> R<T>,
) -> R<(i32, u32, T)> {
    let size = c.named(parts[0], Cur::i32)?;
    let crc = c.named(parts[1], Cur::u32)?;
    if size < 0 || size as usize > c.left() {
        c.part = Some(parts[2]);
        return Err(c.short(i64::from(size)));
    }
    let data = &c.d[c.pos..c.pos + size as usize];
    let r = f(c);
    let check = match crc_mode {
        CrcCheck::Always => true,
        CrcCheck::Never => false,
        CrcCheck::OnError => r.is_err(),
    };
    if check {
        let actual = crc_ref(data);
        if actual != crc {
            if crc_mode == CrcCheck::Always {
                c.part = None;
            }
            return Err(match crc_mode {
                CrcCheck::Always => RErr::CrcMismatch(crc, actual),
                _ => RErr::Corrupt(name, Box::new(r.err().unwrap())),
            });
        }
    }
    r.map(|t| (size, crc, t))
}

/// What the reference knows about a parse beyond its result.
#[derive(Default, Clone)]
pub struct Info {
    /// byte range of the network data
    pub net: Option<(usize, usize)>,
    pub objects: usize,
    pub pairs: u64,
    pub end: usize,
    pub stale: bool,
    /// the part of header or body that could not be read
    pub part: Option<&'static str>,
    /// bytes wanted and left where header or body turned out too short, and where
    /// reading them stopped
    pub lack: Option<(i64, usize)>,
    pub stop: usize,
    /// actor, object, stream and kind of the attribute that could not be read
    pub failed_attr: Option<(i32, i32, i32, Kind)>,
    pub frame_ends: Vec<usize>,
    pub marker: bool,
    pub net_stop: usize,
    pub num_frames: usize,
    /// what was decoded before a network error
    pub partial: Option<Partial>,
    /// frames, new actors, updates and deletions decoded, also before an error
    pub decoded: [usize; 4],
}

/// What was there when the network data turned out to be broken.
#[derive(Clone)]
pub struct Partial {
    pub frames: Vec<Frame>,
    pub new: Vec<NewActor>,
    pub upd: Vec<UpdatedAttribute>,
    pub live: HashMap<i32, i32>,
    pub names: Vec<String>,
}

impl Info {
    /// The reference stopped so close to the end of the network data that an
    /// implementation reading ahead may have run out of data first.
    pub fn near_end(&self) -> bool {
        match self.net {
            Some((a, b)) => ((b - a) * 8).saturating_sub(self.net_stop) <= 128,
            None => false,
        }
    }
}

fn first_prop<'a>(p: &'a [(String, HeaderProp)], k: &str) -> Option<&'a HeaderProp> {
    p.iter().find(|(n, _)| n == k).map(|(_, v)| v)
}

pub fn ref_parse(data: &[u8], crc: CrcCheck, net: NetworkParse, keep_low_ids: bool) -> (Result<Replay, RErr>, Info) {
    let mut info = Info::default();
    let r = ref_parse_inner(data, crc, net, keep_low_ids, &mut info);
    (r, info)
}

fn text_of(p: Option<&HeaderProp>) -> Option<&str> {
    match p {
        Some(HeaderProp::Str(s)) | Some(HeaderProp::Name(s)) => Some(s),
        _ => None,
    }
}

fn int_of(p: Option<&HeaderProp>) -> Option<i32> {
    match p {
        Some(HeaderProp::Int(i)) => Some(*i),
        _ => None,
    }
}

fn ref_parse_inner(data: &[u8], crc: CrcCheck, net: NetworkParse, keep: bool, info: &mut Info) -> R<Replay> {
    let mut c = Cur { d: data, pos: 0, part: None, lack: None };
    let read = (|| {
        let h = section(&mut c, crc, "header", ["header size", "header crc", "header data"], r_header)?;
        let b = section(&mut c, crc, "body", ["content size", "content crc", "content data"], r_body)?;
        Ok((h, b))
    })();
    info.part = c.part;
    info.lack = c.lack;
    info.stop = c.pos;
    let ((header_size, header_crc, h), (content_size, content_crc, b)) = read?;
    info.end = c.pos;
    info.net = Some((b.net_at, b.net_at + b.net.len()));
    info.objects = b.objects.len();
    let frames = if net == NetworkParse::Never {
        None
    } else {
        match ref_network(&h.ver, &h.props, &b, keep, info) {
            Ok(f) => Some(f),
            Err(e) if net == NetworkParse::Always => return Err(RErr::Net(e)),
            Err(_) => None,
        }
    };
    Ok(Replay {
        header_size,
        header_crc,
        major_version: h.ver.major,
        minor_version: h.ver.minor,
        net_version: h.ver.net_opt(),
        game_type: h.game_type,
        properties: h.props,
        content_size,
        content_crc,
        network_frames: frames.map(|frames| NetworkFrames { frames }),
        levels: b.levels,
        keyframes: b.keyframes,
        debug_info: b.debug_info,
        tick_marks: b.tick_marks,
        packages: b.packages,
        objects: b.objects,
        names: b.names,
        class_indices: b.class_indices,
        net_cache: b.net_cache,
    })
}

fn ref_network(v: &Ver, props: &[(String, HeaderProp)], b: &Body, keep: bool, info: &mut Info) -> Result<Vec<Frame>, NErr> {
    let entries: Vec<NetEntry> = b
        .net_cache
        .iter()
        .map(|e| NetEntry {
            object_ind: e.object_ind,
            props: e.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect(),
        })
        .collect();
    let res = Resolver::new(&b.objects, &entries).map_err(|(s, o)| NErr::StreamTooLarge(s, o))?;
    info.pairs = res.pairs;
    let Some(nf) = int_of(first_prop(props, "NumFrames")) else { return Ok(Vec::new()) };
    if nf < 0 || nf as usize > b.net.len() {
        return Err(NErr::TooManyFrames(nf));
    }
    let n = NetIn {
        ver: *v,
        lan: text_of(first_prop(props, "MatchType")) == Some("Lan"),
        rl223: text_of(first_prop(props, "BuildVersion")).map(|s| s.as_bytes() >= b"221120.42953.406184".as_slice()).unwrap_or(false),
        max_channels: int_of(first_prop(props, "MaxChannels")).unwrap_or(1023) as u32,
        num_frames: nf as usize,
        data: b.net,
        res: &res,
        keep_low_ids: keep,
        stale: std::cell::Cell::new(false),
    };
    let o = r_frames(&n);
    info.stale = n.stale.get();
    info.frame_ends = o.ends;
    info.marker = o.marker;
    info.net_stop = o.stop;
    info.num_frames = nf as usize;
    info.decoded = [
        o.frames.len(),
        o.frames.iter().map(|f| f.new_actors.len()).sum::<usize>() + o.part_new.len(),
        o.frames.iter().map(|f| f.updated_actors.len()).sum::<usize>() + o.part_upd.len(),
        o.frames.iter().map(|f| f.deleted_actors.len()).sum::<usize>(),
    ];
    match o.err {
        None => Ok(o.frames),
        Some(e) => {
            if let FErr::Attr(a, o, s, _) = &e {
                let kind = res.caches[*o as usize].as_ref().and_then(|c| c.attrs.get(s)).map(|x| x.1);
                info.failed_attr = kind.map(|k| (*a, *o, *s, k));
            }
            info.partial = Some(Partial { frames: o.frames, new: o.part_new, upd: o.part_upd, live: o.live, names: b.objects.clone() });
            Err(NErr::Frame(e))
        }
    }
}

// ------------------------------------------------------------- comparison

/// Classification of a boxcars error in the reference's terms.
pub fn classify(e: &ParseError) -> RErr {
    match e {
        ParseError::ParseError(_, _, inner) => classify(inner),
        ParseError::Utf8Error(_) => RErr::Utf8,
        ParseError::TextTooLarge(n) => RErr::TextTooLarge(*n),
        ParseError::InsufficientData(..) => RErr::Insufficient,
        ParseError::UnexpectedProperty(s) => RErr::Unexpected(s.clone()),
        ParseError::CrcMismatch(a, b) => RErr::CrcMismatch(*a, *b),
        ParseError::CorruptReplay(s, inner) => {
            RErr::Corrupt(if s == "header" { "header" } else if s == "body" { "body" } else { "?" }, Box::new(classify(inner)))
        }
        ParseError::ListTooLarge(_) => RErr::ListTooLarge,
        ParseError::NetworkError(n) => RErr::Net(classify_net(n)),
    }
}

pub fn classify_net(n: &NetworkError) -> NErr {
    match n {
        NetworkError::StreamTooLargeIndex(a, b) => NErr::StreamTooLarge(*a, *b),
        NetworkError::TooManyFrames(n) => NErr::TooManyFrames(*n),
        NetworkError::FrameError(f, _) => NErr::Frame(classify_frame(f)),
        x => panic!("unexpected network error {x:?}"),
    }
}

pub fn classify_frame(f: &FrameError) -> FErr {
    match f {
        FrameError::NotEnoughDataFor(_) => FErr::NotEnough,
        FrameError::TimeOutOfRange { .. } => FErr::Time,
        FrameError::DeltaOutOfRange { .. } => FErr::Delta,
        FrameError::ObjectIdOutOfRange { obj } => FErr::ObjectRange(obj.0),
        FrameError::MissingActor { actor } => FErr::MissingActor(actor.0),
        FrameError::MissingCache { actor, actor_object } => FErr::MissingCache(actor.0, actor_object.0),
        FrameError::MissingAttribute { actor, actor_object, attribute_stream } => {
            FErr::MissingAttr(actor.0, actor_object.0, attribute_stream.0)
        }
        FrameError::AttributeError { actor, actor_object, attribute_stream, error } => FErr::Attr(
            actor.0,
            actor_object.0,
            attribute_stream.0,
            match error {
                AttributeError::NotEnoughDataFor(_) => AErr::NotEnough,
                AttributeError::UnrecognizedRemoteId(x) => AErr::RemoteId(*x),
                AttributeError::TooBigString(x) => AErr::BigString(*x),
                AttributeError::Unimplemented => panic!("unimplemented leaks out"),
            },
        ),
    }
}

/// Two errors agree, allowing either side to run out of data first when both
/// failed for want of data close to the end.
pub fn same_err(a: &RErr, b: &RErr) -> bool {
    match (a, b) {
        (RErr::Corrupt(s, x), RErr::Corrupt(t, y)) => s == t && same_err(x, y),
        (RErr::Net(NErr::Frame(x)), RErr::Net(NErr::Frame(y))) => {
            if x == y {
                return true;
            }
            let short = |e: &FErr| {
                matches!(e, FErr::NotEnough | FErr::Attr(_, _, _, AErr::NotEnough) | FErr::Attr(_, _, _, AErr::BigString(_)))
            };
            short(x) || short(y)
        }
        _ => a == b,
    }
}
