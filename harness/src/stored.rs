//! C31: what is stored is in the form of the pinned release.
//!
//! `old` is a second, independent description of everything that is stored, the way the pinned release
//! stores it, with its own idea of what the stored commands do. It can write and read the same
//! directories and texts as the code under test; the two must understand one another.

use crate::ensure;
use crate::frame::{caught, fail, Case, CheckDef, R};
use crate::gen::{self, Ticks};
use crate::refm::*;
use crate::rng::Rng;
use crate::session;
use klavier_core::bar::{Bar, Repeat, RepeatSet, VarIndex};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration};
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, ProjectCmd, ProjectCmdErr, ProjectImpl, ProjectStore};
use klavier_core::rhythm::Rhythm;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::json;
use serdo::undo_store::{Options, SqliteUndoStore, UndoStore};
use std::path::Path;

pub mod old {
    use serde::{Deserialize, Serialize};
    use serdo::cmd::{Cmd, SerializableCmd};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Solfa { C, D, E, F, G, A, B }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Octave { OctM2, OctM1, Oct0, Oct1, Oct2, Oct3, Oct4, Oct5, Oct6, Oct7, Oct8 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum SharpFlat { Sharp, DoubleSharp, Flat, DoubleFlat, Natural, Null }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Pitch { pub solfa: Solfa, pub octave: Octave, pub sharp_flat: SharpFlat }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum NoteValue { Whole, Half, Quarter, N8th, N16th, N32nd, N64th, N128th }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Duration { pub numerator: NoteValue, pub denominator: u8, pub dots: u8 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Trimmer { pub values: [i16; 4] }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Percent { pub value: u16 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct RateTrimmer { pub values: [Percent; 4] }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Note {
        pub base_start_tick: u32,
        pub pitch: Pitch,
        pub duration: Duration,
        pub tie: bool,
        pub tied: bool,
        pub base_velocity: u8,
        pub start_tick_trimmer: Trimmer,
        pub duration_trimmer: RateTrimmer,
        pub velocity_trimmer: Trimmer,
        pub channel: u8,
    }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum BeatValue { D2, D4, D8, D16, D32, D64 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Rhythm { pub numerator: u8, pub denominator: BeatValue }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Mark { Start, End, Dc, Fine, Ds, Segno, Coda, Var1, Var2, Var3, Var4 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Ending { VI1, VI2, VI3, VI4 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Marks { pub value: u16 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Bar { pub start_tick: u32, pub rhythm: Option<Rhythm>, pub key: Option<i8>, pub repeats: Marks }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Tempo { pub start_tick: u32, pub value: u16 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Ctrl { pub start_tick: u32, pub velocity: u8, pub channel: u8 }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Grid { pub value: u32 }
    #[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, Default)]
    pub struct Models { pub notes: Vec<Note>, pub bars: Vec<Bar>, pub tempos: Vec<Tempo>, pub dumpers: Vec<Ctrl>, pub softs: Vec<Ctrl> }
    #[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
    pub struct Exported {
        pub key: Option<i8>,
        pub rhythm: Option<Rhythm>,
        pub notes: Vec<Note>, pub bars: Vec<Bar>, pub tempos: Vec<Tempo>, pub dumpers: Vec<Ctrl>, pub softs: Vec<Ctrl>,
    }
    #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Meta { pub need_select: Option<bool>, pub dragged: bool }
    #[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
    pub enum Edit {
        SetRhythm(Rhythm, Rhythm),
        SetKey(i8, i8),
        SetGrid(Grid, Grid),
        ModelChanged { added: Models, removed: Models, metadata: Meta },
    }
    /// A project as it is stored.
    #[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug)]
    pub struct Stored { pub rhythm: Rhythm, pub key: i8, pub grid: Grid, pub models: Models }

    /// A project as its content.
    #[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
    #[serde(from = "Stored", into = "Stored")]
    pub struct Project {
        pub rhythm: Rhythm,
        pub key: i8,
        pub grid: Grid,
        pub notes: BTreeMap<u32, Vec<Note>>,
        pub bars: BTreeMap<u32, Bar>,
        pub tempos: BTreeMap<u32, Tempo>,
        pub dumpers: BTreeMap<u32, Ctrl>,
        pub softs: BTreeMap<u32, Ctrl>,
    }

    impl Note {
        pub fn start(&self) -> u32 {
            (self.base_start_tick as i64 + self.start_tick_trimmer.values.iter().map(|v| *v as i64).sum::<i64>()).max(0) as u32
        }
    }

    impl Default for Project {
        fn default() -> Self {
            Project {
                rhythm: Rhythm { numerator: 4, denominator: BeatValue::D4 }, key: 0, grid: Grid { value: 60 },
                notes: Default::default(), bars: Default::default(), tempos: Default::default(), dumpers: Default::default(), softs: Default::default(),
            }
        }
    }

    impl From<Stored> for Project {
        fn from(s: Stored) -> Self {
            let mut p = Project { rhythm: s.rhythm, key: s.key, grid: s.grid, ..Default::default() };
            p.put(&s.models);
            p
        }
    }

    impl From<Project> for Stored {
        fn from(p: Project) -> Self {
            let models = p.models();
            Stored { rhythm: p.rhythm, key: p.key, grid: p.grid, models }
        }
    }

    impl Project {
        pub fn models(&self) -> Models {
            Models {
                notes: self.notes.values().flatten().copied().collect(),
                bars: self.bars.values().copied().collect(),
                tempos: self.tempos.values().copied().collect(),
                dumpers: self.dumpers.values().copied().collect(),
                softs: self.softs.values().copied().collect(),
            }
        }
        pub fn put(&mut self, m: &Models) {
            for n in &m.notes {
                self.notes.entry(n.start()).or_default().push(*n);
            }
            for x in &m.bars {
                self.bars.insert(x.start_tick, *x);
            }
            for x in &m.tempos {
                self.tempos.insert(x.start_tick, *x);
            }
            for x in &m.dumpers {
                self.dumpers.insert(x.start_tick, *x);
            }
            for x in &m.softs {
                self.softs.insert(x.start_tick, *x);
            }
        }
        pub fn take(&mut self, m: &Models) {
            for n in &m.notes {
                if let Some(v) = self.notes.get_mut(&n.start()) {
                    if let Some(i) = v.iter().position(|x| x == n) {
                        v.remove(i);
                    }
                    if v.is_empty() {
                        self.notes.remove(&n.start());
                    }
                }
            }
            for x in &m.bars {
                self.bars.remove(&x.start_tick);
            }
            for x in &m.tempos {
                self.tempos.remove(&x.start_tick);
            }
            for x in &m.dumpers {
                self.dumpers.remove(&x.start_tick);
            }
            for x in &m.softs {
                self.softs.remove(&x.start_tick);
            }
        }
    }

    impl Cmd for Edit {
        type Model = Project;
        fn undo(&self, p: &mut Project) {
            match self {
                Edit::SetRhythm(a, _) => p.rhythm = *a,
                Edit::SetKey(a, _) => p.key = *a,
                Edit::SetGrid(a, _) => p.grid = *a,
                Edit::ModelChanged { added, removed, .. } => {
                    p.take(added);
                    p.put(removed);
                }
            }
        }
        fn redo(&self, p: &mut Project) {
            match self {
                Edit::SetRhythm(_, b) => p.rhythm = *b,
                Edit::SetKey(_, b) => p.key = *b,
                Edit::SetGrid(_, b) => p.grid = *b,
                Edit::ModelChanged { added, removed, .. } => {
                    p.take(removed);
                    p.put(added);
                }
            }
        }
    }
    impl SerializableCmd for Edit {}
}

type OldStore = SqliteUndoStore<old::Edit, old::Project, ProjectCmdErr>;

// ---- the code's values in the terms of the stored form, by what their attributes are

fn o_solfa(s: Solfa) -> old::Solfa {
    use old::Solfa::*;
    [C, D, E, F, G, A, B][solfa_no(s) as usize]
}
fn o_octave(o: Octave) -> old::Octave {
    use old::Octave::*;
    [OctM2, OctM1, Oct0, Oct1, Oct2, Oct3, Oct4, Oct5, Oct6, Oct7, Oct8][(o.value() + 2) as usize]
}
fn o_sf(f: klavier_core::sharp_flat::SharpFlat) -> old::SharpFlat {
    use old::SharpFlat::*;
    [Null, Sharp, DoubleSharp, Flat, DoubleFlat, Natural][sf_no(f) as usize]
}
fn o_pitch(p: &Pitch) -> old::Pitch {
    old::Pitch { solfa: o_solfa(p.solfa()), octave: o_octave(p.octave()), sharp_flat: o_sf(p.sharp_flat()) }
}
fn o_value(n: klavier_core::duration::Numerator) -> old::NoteValue {
    use old::NoteValue::*;
    [Whole, Half, Quarter, N8th, N16th, N32nd, N64th, N128th][num_no(n) as usize]
}
fn o_duration(d: &Duration) -> old::Duration {
    old::Duration { numerator: o_value(d.numerator), denominator: d.denominator.value(), dots: d.dots.value() }
}
fn o_trimmer(t: &Trimmer) -> old::Trimmer {
    old::Trimmer { values: [t.value(0) as i16, t.value(1) as i16, t.value(2) as i16, t.value(3) as i16] }
}
fn o_percent(p: &PercentU16) -> old::Percent {
    old::Percent { value: permille(*p) as u16 }
}
fn o_rate(t: &RateTrimmer) -> old::RateTrimmer {
    old::RateTrimmer { values: [o_percent(&t.value(0)), o_percent(&t.value(1)), o_percent(&t.value(2)), o_percent(&t.value(3))] }
}
fn o_note(n: &Note) -> old::Note {
    old::Note {
        base_start_tick: n.base_start_tick,
        pitch: o_pitch(&n.pitch),
        duration: o_duration(&n.duration),
        tie: n.tie,
        tied: n.tied,
        base_velocity: n.base_velocity.as_u8(),
        start_tick_trimmer: o_trimmer(&n.start_tick_trimmer),
        duration_trimmer: o_rate(&n.duration_trimmer),
        velocity_trimmer: o_trimmer(&n.velocity_trimmer),
        channel: n.channel.as_u8(),
    }
}
fn o_beat(d: klavier_core::rhythm::Denominator) -> old::BeatValue {
    use old::BeatValue::*;
    [D2, D4, D8, D16, D32, D64][(d.value().trailing_zeros() - 1) as usize]
}
fn o_rhythm(r: &Rhythm) -> old::Rhythm {
    old::Rhythm { numerator: r.numerator().value(), denominator: o_beat(r.denominator()) }
}
fn o_key(k: &Key) -> i8 {
    k.offset() as i8
}
/// The marks in the order of the bits they are stored as.
const MARKS: [(Repeat, old::Mark); 11] = [
    (Repeat::Start, old::Mark::Start), (Repeat::End, old::Mark::End), (Repeat::Dc, old::Mark::Dc), (Repeat::Fine, old::Mark::Fine),
    (Repeat::Ds, old::Mark::Ds), (Repeat::Segno, old::Mark::Segno), (Repeat::Coda, old::Mark::Coda),
    (Repeat::Var1, old::Mark::Var1), (Repeat::Var2, old::Mark::Var2), (Repeat::Var3, old::Mark::Var3), (Repeat::Var4, old::Mark::Var4),
];
fn o_marks(s: &RepeatSet) -> old::Marks {
    old::Marks { value: MARKS.iter().enumerate().filter(|(_, m)| s.contains(m.0)).fold(0, |a, (i, _)| a | 1 << i) }
}
fn o_bar(b: &Bar) -> old::Bar {
    old::Bar { start_tick: b.start_tick, rhythm: b.rhythm.as_ref().map(o_rhythm), key: b.key.as_ref().map(o_key), repeats: o_marks(&b.repeats) }
}
fn o_tempo(t: &Tempo) -> old::Tempo {
    old::Tempo { start_tick: t.start_tick, value: t.value.as_u16() }
}
fn o_ctrl(c: &CtrlChg) -> old::Ctrl {
    old::Ctrl { start_tick: c.start_tick, velocity: c.velocity.as_u8(), channel: c.channel.as_u8() }
}
fn o_grid(g: &Grid) -> old::Grid {
    old::Grid { value: g.as_u32() }
}
fn o_models(m: &Models) -> old::Models {
    old::Models {
        notes: m.notes.iter().map(o_note).collect(),
        bars: m.bars.iter().map(o_bar).collect(),
        tempos: m.tempos.iter().map(o_tempo).collect(),
        dumpers: m.dumpers.iter().map(o_ctrl).collect(),
        softs: m.softs.iter().map(o_ctrl).collect(),
    }
}
fn o_meta(m: &ModelChangeMetadata) -> old::Meta {
    old::Meta { need_select: m.need_select, dragged: m.dragged }
}
fn o_exported(e: &ExportedProject) -> old::Exported {
    let m = o_models(&e.clone().to_models());
    old::Exported {
        key: e.key.as_ref().map(o_key), rhythm: e.rhythm.as_ref().map(o_rhythm),
        notes: m.notes, bars: m.bars, tempos: m.tempos, dumpers: m.dumpers, softs: m.softs,
    }
}
fn o_edit(c: &ProjectCmd) -> old::Edit {
    match c {
        ProjectCmd::SetRhythm(a, b) => old::Edit::SetRhythm(o_rhythm(a), o_rhythm(b)),
        ProjectCmd::SetKey(a, b) => old::Edit::SetKey(o_key(a), o_key(b)),
        ProjectCmd::SetGrid(a, b) => old::Edit::SetGrid(o_grid(a), o_grid(b)),
        ProjectCmd::ModelChanged { added, removed, metadata } =>
            old::Edit::ModelChanged { added: o_models(added), removed: o_models(removed), metadata: o_meta(metadata) },
    }
}
/// What a project shows, notes of a tick in an order of their own.
fn o_project(p: &impl Reads) -> old::Project {
    let mut o = old::Project { rhythm: o_rhythm(&p.tune_rhythm()), key: o_key(&p.tune_key()), grid: o_grid(&p.tune_grid()), ..Default::default() };
    for (k, n) in p.notes().iter() {
        o.notes.entry(*k).or_default().push(o_note(n));
    }
    o.bars = p.bars().iter().map(|(k, x)| (*k, o_bar(x))).collect();
    o.tempos = p.tempos().iter().map(|(k, x)| (*k, o_tempo(x))).collect();
    o.dumpers = p.dumpers().iter().map(|(k, x)| (*k, o_ctrl(x))).collect();
    o.softs = p.softs().iter().map(|(k, x)| (*k, o_ctrl(x))).collect();
    sorted(o)
}
fn sorted(mut p: old::Project) -> old::Project {
    for v in p.notes.values_mut() {
        v.sort_by_cached_key(|n| format!("{:?}", n));
    }
    p
}

fn differ(a: &old::Project, b: &old::Project) -> String {
    if (a.rhythm, a.key, a.grid) != (b.rhythm, b.key, b.grid) {
        return format!("rhythm, key, grid {:?} / {:?}", (a.rhythm, a.key, a.grid), (b.rhythm, b.key, b.grid));
    }
    fn first<T: PartialEq + std::fmt::Debug>(name: &str, a: &std::collections::BTreeMap<u32, T>, b: &std::collections::BTreeMap<u32, T>) -> Option<String> {
        let k = a.keys().chain(b.keys()).find(|k| a.get(k) != b.get(k))?;
        Some(format!("{} at {}: {:?} / {:?}", name, k, a.get(k), b.get(k)))
    }
    first("notes", &a.notes, &b.notes)
        .or_else(|| first("bar", &a.bars, &b.bars))
        .or_else(|| first("tempo", &a.tempos, &b.tempos))
        .or_else(|| first("damper", &a.dumpers, &b.dumpers))
        .or_else(|| first("soft", &a.softs, &b.softs))
        .unwrap_or("nothing".into())
}

/// Both ways, as bytes and as text: what the pinned release stored for `o` is read as `v`, and what is
/// stored for `v` is what the pinned release reads as `o`.
fn agree<K, O>(case: &mut Case, what: &str, v: &K, o: &O, eq: impl Fn(&K, &O) -> bool) -> R
where K: Serialize + DeserializeOwned, O: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug {
    let bytes = bincode::serialize(o).unwrap();
    let text = serde_json::to_string(o).unwrap();
    case.evals(4);
    let r = caught(|| -> Result<(), String> {
        let k: K = bincode::deserialize(&bytes).map_err(|e| format!("refused when read from the bytes stored for it: {}", e))?;
        if !eq(&k, o) {
            return Err(format!("read as something else from the bytes stored for it: {}", serde_json::to_string(&k).unwrap_or_default()));
        }
        let k: K = serde_json::from_str(&text).map_err(|e| format!("refused when read from the text stored for it: {}", e))?;
        if !eq(&k, o) {
            return Err(format!("read as something else from the text stored for it: {}", serde_json::to_string(&k).unwrap_or_default()));
        }
        let b = bincode::serialize(v).map_err(|e| e.to_string())?;
        match bincode::deserialize::<O>(&b) {
            Ok(x) if x == *o && b.len() == bytes.len() => {}
            x => return Err(format!("now stored as bytes that were read as {:?} before", x)),
        }
        let t = serde_json::to_string(v).map_err(|e| e.to_string())?;
        match serde_json::from_str::<O>(&t) {
            Ok(x) if x == *o => Ok(()),
            x => Err(format!("now stored as a text that was read as {:?} before: {}", x, t)),
        }
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail(format!("{} form", what), format!("{} {:?} is {}", what, o, e)),
        Err(p) => fail(format!("{} crash", what), format!("{} {:?}: {}", what, o, p)),
    }
}

/// Every value of the enumerable types.
fn c31_values(case: &mut Case) -> R {
    for s in Solfa::ALL {
        agree(case, "note name", s, &o_solfa(*s), |k, o| o_solfa(*k) == *o)?;
        for oct in Octave::ALL {
            for f in gen::SHARP_FLATS {
                if let Ok(p) = Pitch::value_of(*s, *oct, f) {
                    agree(case, "pitch", &p, &o_pitch(&p), |k, o| o_pitch(k) == *o && *k == p && k.value() == p.value())?;
                }
            }
        }
    }
    for o in Octave::ALL {
        agree(case, "octave", o, &o_octave(*o), |k, o| o_octave(*k) == *o)?;
    }
    for f in gen::SHARP_FLATS {
        agree(case, "accidental", &f, &o_sf(f), |k, o| o_sf(*k) == *o)?;
    }
    for n in gen::NUMERATORS {
        agree(case, "note value", &n, &o_value(n), |k, o| o_value(*k) == *o)?;
        for d in 2..=255u8 {
            let den = Denominator::from_value(d).unwrap();
            agree(case, "tuplet divisor", &den, &d, |k, o| k.value() == *o)?;
            for t in 0..8u8 {
                let dur = Duration::new(n, den, Dots::from_value(t).unwrap());
                agree(case, "duration", &dur, &o_duration(&dur), |k, o| o_duration(k) == *o)?;
            }
        }
    }
    for t in 0..8u8 {
        agree(case, "dots", &Dots::from_value(t).unwrap(), &t, |k, o| k.value() == *o)?;
    }
    for v in 0..=2000u16 {
        agree(case, "percentage", &PercentU16::from_value(v), &old::Percent { value: v }, |k, o| permille(*k) == o.value as i64)?;
    }
    for v in 0..=127u8 {
        agree(case, "velocity", &Velocity::new(v), &v, |k, o| k.as_u8() == *o)?;
    }
    for v in 0..16u8 {
        agree(case, "channel", &Channel::new(v), &v, |k, o| k.as_u8() == *o)?;
    }
    for v in 1..=999u16 {
        agree(case, "tempo value", &TempoValue::new(v), &v, |k, o| k.as_u16() == *o)?;
    }
    for k in Key::ALL {
        agree(case, "key", &k, &o_key(&k), |k, o| o_key(k) == *o)?;
    }
    for n in 1..=99u8 {
        for d in [2, 4, 8, 16, 32, 64] {
            let r = Rhythm::new(n, d);
            agree(case, "rhythm", &r, &o_rhythm(&r), |k, o| o_rhythm(k) == *o)?;
            agree(case, "rhythm numerator", &r.numerator(), &n, |k, o| k.value() == *o)?;
            agree(case, "rhythm denominator", &r.denominator(), &o_beat(r.denominator()), |k, o| o_beat(*k) == *o)?;
        }
    }
    for (m, o) in MARKS {
        agree(case, "mark", &m, &o, |k, o| MARKS.iter().any(|(a, b)| a == k && b == o))?;
    }
    for (i, o) in [old::Ending::VI1, old::Ending::VI2, old::Ending::VI3, old::Ending::VI4].iter().enumerate() {
        let v = VarIndex::from_value(i as u8 + 1).unwrap();
        agree(case, "ending number", &v, o, |k, _| k.value() == i as u8 + 1)?;
    }
    for bits in 0..2048u16 {
        // the sets that can be put together; the others only as they are read
        let o = old::Marks { value: bits };
        let s: RepeatSet = match caught(|| bincode::deserialize::<RepeatSet>(&bincode::serialize(&o).unwrap())) {
            Ok(Ok(s)) => s,
            e => return fail("mark set form", format!("the marks {:?} are not read: {:?}", o, e)),
        };
        agree(case, "mark set", &s, &o, |k, o| o_marks(k) == *o)?;
    }
    for g in (1..=2000u32).chain([65535, 65536, u32::MAX - 1, u32::MAX]) {
        agree(case, "grid", &Grid::from_u32(g).unwrap(), &old::Grid { value: g }, |k, o| o_grid(k) == *o)?;
    }
    for need_select in [None, Some(false), Some(true)] {
        for dragged in [false, true] {
            let mut m = ModelChangeMetadata::new();
            if let Some(b) = need_select {
                m = m.with_need_select(b);
            }
            m.dragged = dragged;
            agree(case, "selection request", &m, &old::Meta { need_select, dragged }, |k, o| o_meta(k) == *o)?;
        }
    }
    // what a project is before anything was done
    let p = ProjectImpl::default();
    agree(case, "empty project", &p, &old::Project::default(), |k, o| o_project(k) == *o)?;
    case.count("enumerable values completely", 1);
    Ok(())
}

fn some_models(r: &mut Rng) -> Models {
    let max = *r.pick(&[960u32, 8000, 100_000, 2_000_000_000]);
    let t = Ticks::new(r, max);
    let wild = r.chance(1, 2);
    let each = *r.pick(&[0u64, 1, 3, 6]);
    gen::models(r, &t, wild, each)
}

fn c31_contents(case: &mut Case) -> R {
    let mut m = some_models(&mut case.rng);
    m.bars.sort_by_key(|b| b.start_tick);
    case.at(|| format!("{:?}", m));
    let o = o_models(&m);
    for n in &m.notes {
        agree(case, "note", n, &o_note(n), |k, _| k == n && note_rec(k) == note_rec(n))?;
    }
    for b in &m.bars {
        agree(case, "bar", b, &o_bar(b), |k, _| k == b)?;
    }
    for t in &m.tempos {
        agree(case, "tempo", t, &o_tempo(t), |k, _| k == t)?;
    }
    for c in m.dumpers.iter().chain(&m.softs) {
        agree(case, "pedal change", c, &o_ctrl(c), |k, _| k == c)?;
    }
    for _ in 0..4 {
        let t = Trimmer::new(gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng));
        agree(case, "trimmer", &t, &o_trimmer(&t), |k, o| o_trimmer(k) == *o && k.sum() == t.sum())?;
        let q = gen::rate(&mut case.rng);
        agree(case, "rate", &q, &o_rate(&q), |k, o| o_rate(k) == *o && k.apply_to(100_000) == q.apply_to(100_000))?;
    }
    agree(case, "selection", &m, &o, |k, _| *k == m)?;
    let (key, rhythm) = (gen::key(&mut case.rng), gen::rhythm(&mut case.rng));
    let ex = ExportedProject {
        key: if case.rng.chance(1, 2) { Some(key) } else { None },
        rhythm: if case.rng.chance(1, 2) { Some(rhythm) } else { None },
        notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone(),
    };
    let oex = o_exported(&ex);
    agree(case, "exported project", &ex, &oex, |k, _| *k == ex)?;
    // the clipboard of the pinned release
    let text = format!("1{}", serde_json::to_string(&o).unwrap());
    match caught(|| Models::from_clipboard_text(text.clone())) {
        Ok(Ok(k)) if k == m => {}
        e => return fail("clipboard form", format!("the text {} was read as {:?}", text, e)),
    }
    match caught(|| m.to_clipboard_text()) {
        Ok(t) if t.starts_with('1') && serde_json::from_str::<old::Models>(&t[1..]).ok().as_ref() == Some(&o) => {}
        e => return fail("clipboard form", format!("{:?} is copied as {:?}, which was not read as it before", m, e)),
    }
    let text = format!("1{}", serde_json::to_string(&oex).unwrap());
    match caught(|| ExportedProject::from_clipboard_text(text.clone())) {
        Ok(Ok(k)) if k == ex => {}
        e => return fail("clipboard form", format!("the text {} was imported as {:?}", text, e)),
    }
    // a project and the edits of a project
    let op = old::Stored { rhythm: o_rhythm(&rhythm), key: o_key(&key), grid: o_grid(&gen::grid(&mut case.rng)), models: o.clone() };
    let want = sorted(old::Project::from(op.clone()));
    for form in 0..2 {
        let k: ProjectImpl = match caught(|| match form {
            0 => bincode::deserialize(&bincode::serialize(&op).unwrap()).map_err(|e| e.to_string()),
            _ => serde_json::from_str(&serde_json::to_string(&op).unwrap()).map_err(|e| e.to_string()),
        }) {
            Ok(Ok(k)) => k,
            e => return fail("project form", format!("the stored project {:?} is not read: {:?}", op, e.map(|e| e.err()))),
        };
        let got = o_project(&k);
        ensure!(got == want, "project form", "a stored project is read as another: stored / read {}", differ(&want, &got));
        let back: Result<old::Project, String> = match form {
            0 => bincode::serialize(&k).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
            _ => serde_json::to_string(&k).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
        };
        match back {
            Ok(b) if sorted(b.clone()) == want => {}
            Ok(b) => return fail("project form", format!("a project is now stored so that it was read as another before: {}", differ(&want, &sorted(b)))),
            Err(e) => return fail("project form", format!("a project is now stored so that it was not readable before: {}", e)),
        }
    }
    let m2 = some_models(&mut case.rng);
    let mut meta = ModelChangeMetadata::new();
    if case.rng.chance(1, 2) {
        meta = meta.with_need_select(case.rng.chance(1, 2));
    }
    meta.dragged = case.rng.chance(1, 2);
    for c in [
        ProjectCmd::SetRhythm(rhythm, gen::rhythm(&mut case.rng)),
        ProjectCmd::SetKey(key, gen::key(&mut case.rng)),
        ProjectCmd::SetGrid(gen::grid(&mut case.rng), gen::grid(&mut case.rng)),
        ProjectCmd::ModelChanged { added: m.clone(), removed: m2, metadata: meta },
    ] {
        agree(case, "edit", &c, &o_edit(&c), |k, o| o_edit(k) == *o && *k == c)?;
    }
    let n = m.notes.len() + m.bars.len() + m.tempos.len() + m.dumpers.len() + m.softs.len();
    if n > 0 {
        case.nontrivial(crate::rng::hash_bytes(&bincode::serialize(&op).unwrap()));
        case.sample(|| json!({"stored": serde_json::to_string(&op).unwrap().chars().take(300).collect::<String>()}));
    }
    case.count("stored contents", 1);
    Ok(())
}

trait Applies {
    fn apply_to(&self, v: u32) -> u32;
}
impl Applies for RateTrimmer {
    fn apply_to(&self, v: u32) -> u32 {
        klavier_core::can_apply::CanApply::apply(*self, v)
    }
}

fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
    }
}

/// The states from the one the directory is opened in back to the first and forth to the last.
fn walk<S: UndoStore>(s: &mut S, show: impl Fn(&S::ModelType) -> old::Project) -> Vec<old::Project> {
    let mut v = vec![show(s.model())];
    while s.can_undo() {
        s.undo();
        v.push(show(s.model()));
    }
    while s.can_redo() {
        s.redo();
        v.push(show(s.model()));
    }
    v
}

fn walk_old(dir: &Path, limit: usize) -> Result<Vec<old::Project>, String> {
    let mut s = OldStore::open(dir, Options::new().with_undo_limit(limit)).map_err(|e| format!("{:?}", e))?;
    Ok(walk(&mut s, |p| sorted(p.clone())))
}

fn walk_new(dir: &Path, limit: usize) -> Result<Vec<old::Project>, String> {
    let mut s: ProjectStore = session::open_store(dir, limit)?;
    Ok(walk(&mut s, |p| o_project(p)))
}

/// Opens copies of the directory the way the pinned release did and with the code as it is.
fn same_history(case: &mut Case, dir: &Path, limit: usize, by: &str) -> Result<Vec<old::Project>, crate::frame::Fail> {
    let (a, b) = (session::fresh_dir(case, "a"), session::fresh_dir(case, "b"));
    copy_dir(dir, &a);
    copy_dir(dir, &b);
    let want = match caught(|| walk_old(&a, limit)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return fail("directory form", format!("a project directory {} cannot be read as before: {}", by, e)),
        Err(p) => return fail("directory form", format!("a project directory {} cannot be read as before: {}", by, p)),
    };
    let got = match caught(|| walk_new(&b, limit)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return fail("directory form", format!("a project directory {} cannot be opened: {}", by, e)),
        Err(p) => return fail("directory form", format!("walking the history of a project directory {} crashed: {}", by, p)),
    };
    case.evals(want.len() as u64);
    case.count("states of stored histories", want.len() as u64);
    ensure!(want.len() == got.len(), "history length", "a project directory {} has {} states to walk through, before {}", by, got.len(), want.len());
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        ensure!(w == g, "history content", "state {} of {} of a project directory {} differs, before / now: {}", i, want.len(), by, differ(w, g));
    }
    let _ = std::fs::remove_dir_all(&a);
    let _ = std::fs::remove_dir_all(&b);
    Ok(want)
}

/// A history of the pinned release.
fn c31_old_directory(case: &mut Case) -> R {
    let dir = session::fresh_dir(case, "old");
    let r = &mut case.rng;
    let limit = *r.pick(&[100usize, 100, 100, 7]);
    let steps = r.range(1, 25);
    let t = Ticks::new(r, 20_000);
    let mut s = OldStore::open(&dir, Options::new().with_undo_limit(limit)).unwrap();
    let mut edits = vec![];
    for _ in 0..steps {
        let p = s.model().clone();
        let e = match r.below(8) {
            0 => old::Edit::SetRhythm(p.rhythm, o_rhythm(&gen::rhythm(r))),
            1 => old::Edit::SetKey(p.key, o_key(&gen::key(r))),
            2 => old::Edit::SetGrid(p.grid, o_grid(&gen::grid(r))),
            _ => {
                let mut added = old::Models::default();
                if r.chance(5, 6) {
                    let wild = r.chance(1, 2);
                    let each = *r.pick(&[1u64, 2, 5]);
                    added = o_models(&gen::models(r, &t, wild, each));
                }
                let mut removed = old::Models::default();
                if r.chance(1, 2) {
                    let m = p.models();
                    removed.notes = m.notes.iter().filter(|_| r.chance(1, 4)).copied().collect();
                    removed.bars = m.bars.iter().filter(|_| r.chance(1, 4)).copied().collect();
                    removed.tempos = m.tempos.iter().filter(|_| r.chance(1, 4)).copied().collect();
                    removed.dumpers = m.dumpers.iter().filter(|_| r.chance(1, 4)).copied().collect();
                    removed.softs = m.softs.iter().filter(|_| r.chance(1, 4)).copied().collect();
                }
                // one of a tick, and what gives way is said to be removed
                fn one<T: Copy>(added: &mut Vec<T>, removed: &mut Vec<T>, there: &std::collections::BTreeMap<u32, T>, at: impl Fn(&T) -> u32) {
                    let m: std::collections::BTreeMap<u32, T> = added.iter().map(|x| (at(x), *x)).collect();
                    *added = m.values().copied().collect();
                    for k in m.keys() {
                        if let Some(x) = there.get(k) {
                            if !removed.iter().any(|y| at(y) == *k) {
                                removed.push(*x);
                            }
                        }
                    }
                }
                one(&mut added.bars, &mut removed.bars, &p.bars, |x| x.start_tick);
                one(&mut added.tempos, &mut removed.tempos, &p.tempos, |x| x.start_tick);
                one(&mut added.dumpers, &mut removed.dumpers, &p.dumpers, |x| x.start_tick);
                one(&mut added.softs, &mut removed.softs, &p.softs, |x| x.start_tick);
                let metadata = old::Meta { need_select: *r.pick(&[None, Some(true), Some(false)]), dragged: r.chance(1, 6) };
                old::Edit::ModelChanged { added, removed, metadata }
            }
        };
        edits.push(e.clone());
        s.add_cmd(e);
    }
    for _ in 0..r.below(4) {
        if s.can_undo() {
            s.undo();
        }
    }
    let last = sorted(s.model().clone());
    drop(s);
    case.at(|| format!("a directory with {:?}", edits));
    let states = same_history(case, &dir, limit, "of the pinned release")?;
    ensure!(states[0] == last, "directory form", "a project directory does not give back its last state");
    // going on with it
    let mut k = match caught(|| session::open_store(&dir, limit)) {
        Ok(Ok(k)) => k,
        e => return fail("directory form", format!("a project directory of the pinned release cannot be opened again: {:?}", e.map(|e| e.err()))),
    };
    let note = gen::note(&mut case.rng, &t, false);
    use klavier_core::project::Project as _;
    k.add_note(note.clone(), true);
    let after = o_project(k.model());
    session::settle(&mut k)?;
    drop(k);
    let states = same_history(case, &dir, limit, "of the pinned release, gone on with")?;
    ensure!(states[0] == after, "directory form", "a project directory gone on with does not give back its last state");
    let _ = std::fs::remove_dir_all(&dir);
    case.nontrivial(crate::rng::hash_bytes(&bincode::serialize(&edits).unwrap()));
    case.count("directories of the pinned release", 1);
    Ok(())
}

/// A history of the code as it is.
fn c31_new_directory(case: &mut Case) -> R {
    let mut cfg = session::random_cfg(&mut case.rng, session::Mon::default());
    cfg.ops = cfg.ops.min(25);
    let limit = cfg.limit;
    let dir = session::fresh_dir(case, "new");
    let mut s = session::run_session(case, &cfg, dir.clone())?;
    let last = o_project(s.model());
    s.close()?;
    let states = same_history(case, &dir, limit, "made now")?;
    ensure!(states[0] == last, "directory form", "a project directory made now does not give back its last state as before: {}", differ(&last, &states[0]));
    let _ = std::fs::remove_dir_all(&dir);
    case.nontrivial(crate::rng::hash_bytes(&bincode::serialize(&states[0]).unwrap()));
    case.count("directories made now", 1);
    Ok(())
}

fn c31(case: &mut Case) -> R {
    match case.idx {
        0 => c31_values(case),
        i if i % 6 == 1 => c31_old_directory(case),
        i if i % 6 == 3 => c31_new_directory(case),
        _ => {
            for _ in 0..10 {
                c31_contents(case)?;
            }
            Ok(())
        }
    }
}


pub fn defs() -> Vec<CheckDef> {
    vec![CheckDef {
        id: "C31", rule: "case 0: every value of the enumerable types; of every six further cases one is a project directory with the random history of an independent writer of the pinned form, opened, walked through and gone on with by the code, one a directory made by a random session and walked through by the independent reader, the others ten random contents (items, selections, exported projects, clipboard texts, projects, edits) in both directions as bytes and as text; non-trivial: distinct contents and histories",
        assumptions: &["the undo store (serdo) and SQLite keep what they are given"], quick: 10000, thorough_s: Some(300), finite: None, threads: 8, run: c31,
    }]
}
