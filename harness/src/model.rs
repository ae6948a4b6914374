//! The specification side of attribute resolution: versions, class
//! inheritance, stream ids and spawn kinds.

use crate::tables::{ATTRS, PARENTS, SPAWNS};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    ActiveActor,
    AppliedDamage,
    Boolean,
    Byte,
    CamSettings,
    ClubColors,
    DamageState,
    Demolish,
    DemolishExtended,
    DemolishFx,
    Enum,
    Explosion,
    ExtendedExplosion,
    FlaggedByte,
    Float,
    GameMode,
    Impulse,
    Int,
    Int64,
    Loadout,
    LoadoutOnline,
    LoadoutsOnline,
    Location,
    LogoData,
    MusicStinger,
    PartyLeader,
    Pickup,
    PickupInfo,
    PickupNew,
    PlayerHistoryKey,
    PrivateMatchSettings,
    QWordString,
    RepStatTitle,
    ReplicatedBoost,
    Reservation,
    RigidBody,
    RotationTag,
    StatEvent,
    String,
    TeamLoadout,
    TeamPaint,
    Title,
    UniqueId,
    Welded,
    Unknown,
}

pub const KINDS: &[Kind] = &[
    Kind::Boolean,
    Kind::Byte,
    Kind::ActiveActor,
    Kind::RigidBody,
    Kind::AppliedDamage,
    Kind::CamSettings,
    Kind::ClubColors,
    Kind::DamageState,
    Kind::Demolish,
    Kind::DemolishExtended,
    Kind::DemolishFx,
    Kind::Enum,
    Kind::Explosion,
    Kind::ExtendedExplosion,
    Kind::FlaggedByte,
    Kind::Float,
    Kind::GameMode,
    Kind::Impulse,
    Kind::Int,
    Kind::Int64,
    Kind::Loadout,
    Kind::LoadoutOnline,
    Kind::LoadoutsOnline,
    Kind::Location,
    Kind::LogoData,
    Kind::MusicStinger,
    Kind::PartyLeader,
    Kind::Pickup,
    Kind::PickupInfo,
    Kind::PickupNew,
    Kind::PlayerHistoryKey,
    Kind::PrivateMatchSettings,
    Kind::QWordString,
    Kind::RepStatTitle,
    Kind::ReplicatedBoost,
    Kind::Reservation,
    Kind::RotationTag,
    Kind::StatEvent,
    Kind::String,
    Kind::TeamLoadout,
    Kind::TeamPaint,
    Kind::Title,
    Kind::UniqueId,
    Kind::Welded,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spawn {
    None,
    Location,
    LocationAndRotation,
}

/// (major, minor, net) with a missing net version read as 0.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ver {
    pub major: i32,
    pub minor: i32,
    pub net: i32,
}

pub const fn ver(major: i32, minor: i32, net: i32) -> Ver {
    Ver { major, minor, net }
}

impl Ver {
    /// A net version is on the wire only for major > 865 and minor > 17.
    pub fn has_net(&self) -> bool {
        self.major > 865 && self.minor > 17
    }
    pub fn net_opt(&self) -> Option<i32> {
        if self.has_net() { Some(self.net) } else { None }
    }
    /// Drops a net version that cannot be expressed.
    pub fn norm(self) -> Ver {
        if self.has_net() { self } else { Ver { net: 0, ..self } }
    }
    pub fn quirks(&self) -> bool {
        self.major == 0 && self.minor == 0 && !self.has_net()
    }
    pub fn vec_max(&self) -> u64 {
        if self.net >= 7 { 22 } else { 20 }
    }
}

pub fn kind_of(name: &str) -> Kind {
    static M: OnceLock<HashMap<&'static str, Kind>> = OnceLock::new();
    M.get_or_init(|| ATTRS.iter().copied().collect()).get(name).copied().unwrap_or(Kind::Unknown)
}

pub fn names_of(kind: Kind) -> &'static [&'static str] {
    static M: OnceLock<BTreeMap<Kind, Vec<&'static str>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: BTreeMap<Kind, Vec<&'static str>> = BTreeMap::new();
        for (n, k) in ATTRS {
            m.entry(*k).or_default().push(n);
        }
        m
    })
    .get(&kind)
    .map(Vec::as_slice)
    .unwrap_or(&[])
}

pub const LEVEL_ACTORS: &[&str] = &[
    "CrowdActor_TA",
    "CrowdManager_TA",
    "VehiclePickup_Boost_TA",
    "InMapScoreboard_TA",
    "BreakOutActor_Platform_TA",
    "PlayerStart_Platform_TA",
];
pub const LEVEL: &str = "TheWorld:PersistentLevel.";

/// Instances placed in a level (`<stadium>.TheWorld:PersistentLevel.<class>_<n>`)
/// stand for one entry per class.
pub fn normal_name(name: &str) -> String {
    let strip = |s: &str| -> Option<String> {
        let rest = s.strip_prefix(LEVEL)?;
        LEVEL_ACTORS.iter().find(|a| rest.starts_with(**a)).map(|a| format!("{LEVEL}{a}"))
    };
    if name.starts_with(LEVEL) {
        return strip(name).unwrap_or_else(|| name.to_string());
    }
    if let Some(i) = name.find('.') {
        if let Some(n) = strip(&name[i + 1..]) {
            return n;
        }
    }
    name.to_string()
}

pub fn parent_of(name: &str) -> Option<&'static str> {
    static M: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    M.get_or_init(|| PARENTS.iter().copied().collect()).get(normal_name(name).as_str()).copied()
}

fn spawn_stat(name: &str) -> Option<Spawn> {
    SPAWNS.iter().find(|(n, _)| *n == name).map(|(_, s)| *s)
}

/// Name, then its ancestors; the root of a chain has no parent and is not part
/// of it.
pub fn lineage(name: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = name.to_string();
    while let Some(p) = parent_of(&cur) {
        out.push(cur);
        cur = p.to_string();
        if out.len() > 64 {
            break;
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct Cache {
    /// stream id -> (attribute object, kind)
    pub attrs: BTreeMap<i32, (i32, Kind)>,
}

impl Cache {
    /// Exclusive upper bound for encoded stream ids.
    pub fn max(&self) -> i32 {
        self.attrs.keys().max().copied().unwrap_or(2).saturating_add(1)
    }
}

pub struct Resolver {
    pub caches: Vec<Option<Cache>>,
    pub spawns: Vec<Spawn>,
    /// ids of the product attribute classes
    pub product: ProductIds,
    /// total number of (object, attribute) pairs
    pub pairs: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ProductIds {
    pub color: Option<i32>,
    pub painted: Option<i32>,
    pub special: Option<i32>,
    pub team: Option<i32>,
    pub title: Option<i32>,
}

pub struct NetEntry {
    pub object_ind: i32,
    /// (object_ind, stream_id)
    pub props: Vec<(i32, i32)>,
}

impl Resolver {
    /// Err((stream, object)) for a cache property whose object does not exist.
    pub fn new(objects: &[String], net: &[NetEntry]) -> Result<Resolver, (i32, i32)> {
        let mut first: HashMap<&str, i32> = HashMap::new();
        for (i, n) in objects.iter().enumerate() {
            first.entry(n.as_str()).or_insert(i as i32);
        }
        let mut props: HashMap<i32, Vec<(i32, i32, Kind)>> = HashMap::new();
        for e in net {
            let v = props.entry(e.object_ind).or_default();
            for &(o, s) in &e.props {
                if o < 0 || o as usize >= objects.len() {
                    return Err((s, o));
                }
                v.push((s, o, kind_of(&objects[o as usize])));
            }
        }
        let mut caches = vec![None; objects.len()];
        let mut spawns = vec![Spawn::None; objects.len()];
        let mut pairs = 0u64;
        for (i, name) in objects.iter().enumerate() {
            let chain: Vec<(String, i32)> = lineage(name)
                .into_iter()
                .filter_map(|n| first.get(n.as_str()).map(|&ix| (n, ix)))
                .collect();
            // nearest listed member of the chain that has a spawn kind; a name
            // that is itself in the spawn table keeps its own kind
            spawns[i] = chain
                .iter()
                .find_map(|(n, _)| spawn_stat(n))
                .or_else(|| spawn_stat(name))
                .unwrap_or(Spawn::None);
            // Only objects with a place in the hierarchy have attributes; a
            // repeated name is represented by its first occurrence.
            if let Some((n0, ix0)) = chain.first() {
                if n0 == name && *ix0 == i as i32 {
                    let mut c = Cache::default();
                    for (_, ix) in chain.iter().rev() {
                        for &(s, o, k) in props.get(ix).map(Vec::as_slice).unwrap_or(&[]) {
                            c.attrs.insert(s, (o, k));
                        }
                    }
                    pairs += c.attrs.len() as u64;
                    caches[i] = Some(c);
                }
            }
        }
        // duplicates of a name spawn as None: only the first is in the index
        for (i, name) in objects.iter().enumerate() {
            if first[name.as_str()] != i as i32 {
                spawns[i] = Spawn::None;
            }
        }
        let get = |n: &str| first.get(n).copied();
        Ok(Resolver {
            caches,
            spawns,
            product: ProductIds {
                color: get("TAGame.ProductAttribute_UserColor_TA"),
                painted: get("TAGame.ProductAttribute_Painted_TA"),
                special: get("TAGame.ProductAttribute_SpecialEdition_TA"),
                team: get("TAGame.ProductAttribute_TeamEdition_TA"),
                title: get("TAGame.ProductAttribute_TitleID_TA"),
            },
            pairs,
        })
    }
}
