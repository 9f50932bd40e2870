//! Independent reference computations: canonical records of everything a project shows, and
//! what one edit should do to them.

use klavier_core::bar::{Bar, Repeat};
use klavier_core::can_apply::CanApply;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Duration, Numerator};
use klavier_core::key::Key;
use klavier_core::note::Note;
use klavier_core::percent::PercentU16;
use klavier_core::location::Location;
use klavier_core::grid::Grid;
use klavier_core::project::{LocationError, ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_core::tempo::TempoValue;
use klavier_core::velocity::Velocity;
use klavier_helper::bag_store::BagStore;
use klavier_helper::store::Store;
use std::rc::Rc;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use std::collections::BTreeMap;

use crate::gen::REPEATS;

pub type Rec = Vec<i64>;

pub fn permille(p: PercentU16) -> i64 {
    p.apply(1000u32) as i64
}

pub fn solfa_no(s: Solfa) -> i64 {
    match s {
        Solfa::C => 0,
        Solfa::D => 1,
        Solfa::E => 2,
        Solfa::F => 3,
        Solfa::G => 4,
        Solfa::A => 5,
        Solfa::B => 6,
    }
}

pub const SEMITONES: [i64; 7] = [0, 2, 4, 5, 7, 9, 11];

pub fn sf_no(s: SharpFlat) -> i64 {
    match s {
        SharpFlat::Null => 0,
        SharpFlat::Sharp => 1,
        SharpFlat::DoubleSharp => 2,
        SharpFlat::Flat => 3,
        SharpFlat::DoubleFlat => 4,
        SharpFlat::Natural => 5,
    }
}

pub const SF_SEMITONE: [i64; 6] = [0, 1, 2, -1, -2, 0];

pub fn num_no(n: Numerator) -> i64 {
    match n {
        Numerator::Whole => 0,
        Numerator::Half => 1,
        Numerator::Quarter => 2,
        Numerator::N8th => 3,
        Numerator::N16th => 4,
        Numerator::N32nd => 5,
        Numerator::N64th => 6,
        Numerator::N128th => 7,
    }
}

/// Everything of a note, what it behaves like included.
pub fn note_rec(n: &Note) -> Rec {
    let st = n.start_tick_trimmer;
    let vt = n.velocity_trimmer;
    let du = n.duration_trimmer;
    vec![
        n.base_start_tick as i64,
        solfa_no(n.pitch.solfa()), n.pitch.octave().value() as i64, sf_no(n.pitch.sharp_flat()),
        n.pitch.value() as i64, n.pitch.score_offset() as i64,
        num_no(n.duration.numerator), n.duration.denominator.value() as i64, n.duration.dots.value() as i64,
        n.tie as i64, n.tied as i64, n.base_velocity.as_u8() as i64,
        st.value(0) as i64, st.value(1) as i64, st.value(2) as i64, st.value(3) as i64, st.sum() as i64,
        permille(du.value(0)), permille(du.value(1)), permille(du.value(2)), permille(du.value(3)), permille(du.sum()),
        vt.value(0) as i64, vt.value(1) as i64, vt.value(2) as i64, vt.value(3) as i64, vt.sum() as i64,
        n.channel.as_u8() as i64,
        n.start_tick() as i64, n.tick_len() as i64, n.velocity().as_u8() as i64,
    ]
}

pub fn rhythm_rec(r: Rhythm) -> (i64, i64) {
    (r.numerator().value() as i64, r.denominator().value() as i64)
}

pub fn repeat_bits(b: &Bar) -> i64 {
    set_bits(|r| b.repeats.contains(r))
}

pub fn set_bits(has: impl Fn(Repeat) -> bool) -> i64 {
    REPEATS.iter().enumerate().filter(|(_, r)| has(**r)).fold(0, |a, (i, _)| a | (1 << i))
}

pub fn bar_rec(b: &Bar) -> Rec {
    let (n, d) = b.rhythm.map(rhythm_rec).unwrap_or((-1, -1));
    vec![b.start_tick as i64, n, d, b.key.map(|k: Key| k.offset() as i64).unwrap_or(-100), repeat_bits(b)]
}

pub fn tempo_rec(t: &Tempo) -> Rec {
    vec![t.start_tick as i64, t.value.as_u16() as i64]
}

pub fn ctrl_rec(c: &CtrlChg) -> Rec {
    vec![c.start_tick as i64, c.velocity.as_u8() as i64, c.channel.as_u8() as i64]
}

/// The note's start by its attributes, computed here.
pub fn ref_start(n: &Note) -> u32 {
    let mut t = n.base_start_tick as i64;
    for i in 0..4 {
        t += n.start_tick_trimmer.value(i) as i64;
    }
    t.max(0) as u32
}

/// Exact nominal length times the tuplet divisor: (numerator, divisor).
pub fn ref_nominal(d: Duration) -> u32 {
    // a quarter is 240 ticks; a dot adds half of what was added last, in whole ticks
    let base: i64 = 960 >> num_no(d.numerator);
    let dots = d.dots.value() as u32;
    let dotted = base + (base - (base >> dots));
    if d.denominator.value() == 2 {
        dotted as u32
    } else {
        (dotted * 2 / d.denominator.value() as i64) as u32
    }
}

pub type Keyed = BTreeMap<i64, Rec>;

/// What a project shows: settings and every item, in a canonical order.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Snap {
    pub rhythm: (i64, i64),
    pub key: i64,
    pub grid: i64,
    /// (key in the repository, note), sorted: notes are a bag.
    pub notes: Vec<(i64, Rec)>,
    pub bars: Vec<(i64, Rec)>,
    pub tempos: Vec<(i64, Rec)>,
    pub dumpers: Vec<(i64, Rec)>,
    pub softs: Vec<(i64, Rec)>,
}

type Md = ModelChangeMetadata;

/// What can be asked of a project: its model and the project store a program holds both answer.
pub trait Reads {
    fn tune_rhythm(&self) -> Rhythm;
    fn tune_key(&self) -> Key;
    fn tune_grid(&self) -> Grid;
    fn notes(&self) -> &BagStore<u32, Rc<Note>, Md>;
    fn bars(&self) -> &Store<u32, Bar, Md>;
    fn tempos(&self) -> &Store<u32, Tempo, Md>;
    fn dumpers(&self) -> &Store<u32, CtrlChg, Md>;
    fn softs(&self) -> &Store<u32, CtrlChg, Md>;
    fn number_of(&self, bar: &Bar) -> Option<usize>;
    fn tempo_in_force(&self, tick: u32) -> TempoValue;
    fn dumper_in_force(&self, tick: u32) -> Velocity;
    fn soft_in_force(&self, tick: u32) -> Velocity;
    fn rhythm_in_force(&self, tick: u32) -> Rhythm;
    fn key_in_force(&self, tick: u32) -> Key;
    fn tick_of(&self, loc: Location) -> Result<u32, LocationError>;
    fn location_of(&self, tick: u32) -> Location;
}

macro_rules! reads {
    ($t:ty, $m:ty) => {
        impl Reads for $t {
            fn tune_rhythm(&self) -> Rhythm { <$m>::rhythm(self) }
            fn tune_key(&self) -> Key { <$m>::key(self) }
            fn tune_grid(&self) -> Grid { <$m>::grid(self) }
            fn notes(&self) -> &BagStore<u32, Rc<Note>, Md> { <$m>::note_repo(self) }
            fn bars(&self) -> &Store<u32, Bar, Md> { <$m>::bar_repo(self) }
            fn tempos(&self) -> &Store<u32, Tempo, Md> { <$m>::tempo_repo(self) }
            fn dumpers(&self) -> &Store<u32, CtrlChg, Md> { <$m>::dumper_repo(self) }
            fn softs(&self) -> &Store<u32, CtrlChg, Md> { <$m>::soft_repo(self) }
            fn number_of(&self, bar: &Bar) -> Option<usize> { <$m>::bar_no(self, bar) }
            fn tempo_in_force(&self, tick: u32) -> TempoValue { <$m>::tempo_at(self, tick) }
            fn dumper_in_force(&self, tick: u32) -> Velocity { <$m>::dumper_at(self, tick) }
            fn soft_in_force(&self, tick: u32) -> Velocity { <$m>::soft_at(self, tick) }
            fn rhythm_in_force(&self, tick: u32) -> Rhythm { <$m>::rhythm_at(self, tick) }
            fn key_in_force(&self, tick: u32) -> Key { <$m>::key_at(self, tick) }
            fn tick_of(&self, loc: Location) -> Result<u32, LocationError> { <$m>::location_to_tick(self, loc) }
            fn location_of(&self, tick: u32) -> Location { <$m>::tick_to_location(self, tick) }
        }
    };
}
reads!(ProjectImpl, ProjectImpl);
reads!(ProjectStore, ProjectStore);

impl Snap {
    pub fn of(p: &impl Reads) -> Snap {
        let mut notes: Vec<(i64, Rec)> = p.notes().iter().map(|(k, n)| (*k as i64, note_rec(n))).collect();
        notes.sort();
        Snap {
            rhythm: rhythm_rec(p.tune_rhythm()),
            key: p.tune_key().offset() as i64,
            grid: p.tune_grid().as_u32() as i64,
            notes,
            bars: p.bars().iter().map(|(k, b)| (*k as i64, bar_rec(b))).collect(),
            tempos: p.tempos().iter().map(|(k, b)| (*k as i64, tempo_rec(b))).collect(),
            dumpers: p.dumpers().iter().map(|(k, b)| (*k as i64, ctrl_rec(b))).collect(),
            softs: p.softs().iter().map(|(k, b)| (*k as i64, ctrl_rec(b))).collect(),
        }
    }

    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }

    pub fn items(&self) -> usize {
        self.notes.len() + self.bars.len() + self.tempos.len() + self.dumpers.len() + self.softs.len()
    }

    /// In words, where two states differ.
    pub fn diff(&self, other: &Snap, me: &str, them: &str) -> String {
        let mut s = String::new();
        if self.rhythm != other.rhythm {
            s += &format!("rhythm {:?} {} / {:?} {}; ", self.rhythm, me, other.rhythm, them);
        }
        if self.key != other.key {
            s += &format!("key {} {} / {} {}; ", self.key, me, other.key, them);
        }
        if self.grid != other.grid {
            s += &format!("grid {} {} / {} {}; ", self.grid, me, other.grid, them);
        }
        for (name, a, b) in [
            ("note", &self.notes, &other.notes),
            ("bar", &self.bars, &other.bars),
            ("tempo", &self.tempos, &other.tempos),
            ("damper", &self.dumpers, &other.dumpers),
            ("soft", &self.softs, &other.softs),
        ] {
            let mut left: std::collections::BTreeMap<&(i64, Rec), usize> = Default::default();
            for x in b.iter() {
                *left.entry(x).or_default() += 1;
            }
            let mut only_a = vec![];
            for x in a.iter() {
                match left.get_mut(x) {
                    Some(n) if *n > 0 => *n -= 1,
                    _ => only_a.push(x),
                }
            }
            let bb: Vec<_> = left.into_iter().filter(|(_, n)| *n > 0).map(|(x, _)| x).collect();
            for x in only_a.iter().take(3) {
                s += &format!("{} only {}: {:?}; ", name, me, x);
            }
            for x in bb.iter().take(3) {
                s += &format!("{} only {}: {:?}; ", name, them, x);
            }
        }
        s
    }
}

/// Bag difference etc. on sorted vectors.
pub fn bag_remove(v: &mut Vec<(i64, Rec)>, x: &(i64, Rec)) -> bool {
    if let Some(i) = v.iter().position(|y| y == x) {
        v.remove(i);
        true
    } else {
        false
    }
}

/// Takes the items out one after the other; says of each whether it was there. (The order of `v` may change.)
pub fn bag_remove_all(v: &mut Vec<(i64, Rec)>, xs: &[(i64, Rec)]) -> Vec<bool> {
    if xs.len() <= 32 {
        return xs.iter().map(|x| bag_remove(v, x)).collect();
    }
    let mut left: std::collections::BTreeMap<(i64, Rec), usize> = Default::default();
    for x in v.drain(..) {
        *left.entry(x).or_default() += 1;
    }
    let found = xs
        .iter()
        .map(|x| match left.get_mut(x) {
            Some(n) if *n > 0 => {
                *n -= 1;
                true
            }
            _ => false,
        })
        .collect();
    for (x, n) in left {
        for _ in 0..n {
            v.push(x.clone());
        }
    }
    found
}
