//! Editing sessions on the real store, and the monitors that watch them (C01-C09, C27; C04 uses the
//! same sessions in a process that gets killed).

use crate::frame::{background_panic, fail, Case, R};
use crate::gen::{self, Ticks};
use crate::refm::*;
use crate::rng::Rng;
use crate::ensure;
use klavier_core::bar::{Bar, RepeatSet};
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::Note;
use klavier_core::project::{LocationError, ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_core::rhythm::Rhythm;
use klavier_core::tempo::Tempo;
use klavier_helper::bag_store::BagStoreEvent;
use klavier_helper::store::StoreEvent;
use serdo::undo_store::{Options, UndoStore};
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Changes {
    pub notes: Vec<(Note, Note)>,
    pub bars: Vec<(Bar, Bar)>,
    pub tempos: Vec<(Tempo, Tempo)>,
    pub dumpers: Vec<(CtrlChg, CtrlChg)>,
    pub softs: Vec<(CtrlChg, CtrlChg)>,
}

impl Changes {
    fn build(&self) -> ModelChanges {
        ModelChanges::empty()
            .with_notes(self.notes.clone())
            .with_bars(self.bars.clone())
            .with_tempos(self.tempos.clone())
            .with_dumpers(self.dumpers.clone())
            .with_softs(self.softs.clone())
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    SetRhythm(Rhythm),
    SetKey(Key),
    SetGrid(Grid),
    AddNote(Note, bool),
    AddBar(Bar, bool),
    AddTempo(Tempo, bool),
    AddDumper(CtrlChg, bool),
    AddSoft(CtrlChg, bool),
    Tuplize(Vec<Rc<Note>>),
    Remove(Models, ModelChangeMetadata),
    Add(Models, ModelChangeMetadata),
    Change(Changes, ModelChangeMetadata),
    Undo(usize),
    Redo(usize),
    Clear,
    Reopen,
    SaveAs,
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::SetRhythm(_) => "set_rhythm",
            Op::SetKey(_) => "set_key",
            Op::SetGrid(_) => "set_grid",
            Op::AddNote(..) => "add_note",
            Op::AddBar(..) => "add_bar",
            Op::AddTempo(..) => "add_tempo",
            Op::AddDumper(..) => "add_dumper",
            Op::AddSoft(..) => "add_soft",
            Op::Tuplize(_) => "tuplize",
            Op::Remove(..) => "bulk_remove",
            Op::Add(..) => "bulk_add",
            Op::Change(..) => "change",
            Op::Undo(_) => "undo",
            Op::Redo(_) => "redo",
            Op::Clear => "clear_events",
            Op::Reopen => "reopen",
            Op::SaveAs => "save_as",
        }
    }
    fn covers_music(&self) -> bool {
        matches!(
            self,
            Op::AddNote(..) | Op::AddTempo(..) | Op::AddDumper(..) | Op::AddSoft(..) | Op::Add(..) | Op::Change(..) | Op::Tuplize(_)
        )
    }
    /// The selection request the edit carries, and whether it is the outcome of a drag.
    fn asked(&self) -> Asked {
        match self {
            Op::AddNote(_, s) | Op::AddBar(_, s) | Op::AddTempo(_, s) | Op::AddDumper(_, s) | Op::AddSoft(_, s) => {
                if *s {
                    (Some(true), false)
                } else {
                    (None, false)
                }
            }
            Op::Tuplize(_) => (Some(true), false),
            Op::Remove(_, m) | Op::Add(_, m) | Op::Change(_, m) => (m.need_select, m.dragged),
            _ => (None, false),
        }
    }
}

/// The selection request and the drag mark of an edit.
type Asked = (Option<bool>, bool);

/// The upper half of the ticks.
const FAR: u32 = 1 << 31;

#[derive(Clone, Copy, Default)]
pub struct Mon {
    pub undo: bool,
    pub redo: bool,
    pub reopen: bool,
    pub bars: bool,
    pub lookups: bool,
    pub locations: bool,
    pub events: bool,
    pub edits: bool,
}

#[derive(Clone)]
pub struct Cfg {
    pub mon: Mon,
    pub ops: usize,
    pub limit: usize,
    /// weights of: settings, add_note, add_bar, add_tempo, add_dumper, add_soft, tuplize, remove, add, change, undo, redo, clear, reopen, save_as
    pub w: [u64; 15],
    pub wild: bool,
    pub max_tick: u32,
    pub max_each: u64,
    /// Now and then a bar in the upper half of the ticks, and then other items there too.
    pub far_bars: bool,
    /// Edits that touch dozens to hundreds of items at once.
    pub big: bool,
    /// More than 65,536 items of one kind (0: bars, 1: notes, 2: bars that hardly ever carry anything, 3: tempos, ..) are there from the first edit on.
    pub giant: Option<u64>,
}

impl Cfg {
    pub fn new(mon: Mon) -> Self {
        Cfg { mon, ops: 40, limit: 100, w: [7, 14, 8, 5, 4, 4, 6, 8, 8, 13, 10, 7, 3, 2, 1], wild: false, max_tick: 8000, max_each: 3, far_bars: false, big: false, giant: None }
    }
}

#[derive(Default)]
struct Mirror {
    /// how often each note is there
    notes: BTreeMap<Rec, usize>,
    bars: Keyed,
    tempos: Keyed,
    dumpers: Keyed,
    softs: Keyed,
    seen: [usize; 5],
}

pub struct Session {
    store: Option<ManuallyDrop<ProjectStore>>,
    pub dir: PathBuf,
    limit: usize,
    hist: Vec<Rc<Snap>>,
    /// The selection request of the edit that led to each state.
    asked: Vec<Option<Asked>>,
    cursor: usize,
    floor: usize,
    dirty: bool,
    /// The furthest position left by an undo, and whether edits were made since the last undo or redo:
    /// together they tell when `saved()` of the undo store (serdo) may speak of an older edit that had
    /// the same number (see DESIGN.md).
    high: usize,
    unsynced: bool,
    mirror: Mirror,
    ticks: Ticks,
    /// Hash of the state after every step, for comparing whole sessions.
    pub states: Vec<u64>,
    copies: usize,
}

pub fn open_store(dir: &Path, limit: usize) -> Result<ProjectStore, String> {
    ProjectStore::open(dir.to_path_buf(), Options::new().with_undo_limit(limit)).map_err(|e| format!("{:?}", e))
}

pub fn settle(store: &mut ProjectStore) -> R {
    let mut spins = 0u32;
    let mut since = None;
    loop {
        match store.saved() {
            Ok(true) => return Ok(()),
            Ok(false) => {}
            Err(e) => return fail("save-error", format!("the store reports a saving error: {:?}", e)),
        }
        spins += 1;
        if spins > 200 {
            std::thread::sleep(std::time::Duration::from_micros(if spins > 2000 { 500 } else { 20 }));
            if let Some(p) = background_panic() {
                return fail(format!("background: {}", p), format!("the background saver panicked: {}", p));
            }
            let t = *since.get_or_insert_with(std::time::Instant::now);
            ensure!(t.elapsed().as_secs() < 60, "never-saved", "an edit is still not reported as saved after a minute");
        } else {
            std::hint::spin_loop();
        }
    }
}

fn meta_of(need_select: Option<bool>, dragged: bool) -> ModelChangeMetadata {
    let mut m = ModelChangeMetadata::new();
    if let Some(b) = need_select {
        m = m.with_need_select(b);
    }
    m.dragged = dragged;
    m
}

impl Session {
    pub fn open(dir: PathBuf, limit: usize, ticks: Ticks) -> Result<Session, crate::frame::Fail> {
        let store = match open_store(&dir, limit) {
            Ok(s) => s,
            Err(e) => return fail("open-new", format!("a new project cannot be opened: {}", e)),
        };
        let mut s = Session {
            store: Some(ManuallyDrop::new(store)),
            dir,
            limit,
            hist: vec![],
            asked: vec![None],
            cursor: 0,
            floor: 0,
            dirty: false, high: 0, unsynced: false,
            mirror: Mirror::default(),
            ticks,
            states: vec![],
            copies: 0,
        };
        s.hist.push(Rc::new(s.snap()));
        Ok(s)
    }

    pub fn st(&mut self) -> &mut ProjectStore {
        self.store.as_mut().unwrap()
    }
    pub fn model(&self) -> &ProjectImpl {
        self.store.as_ref().unwrap().model()
    }
    pub fn snap(&self) -> Snap {
        Snap::of(self.model())
    }
    pub fn settle(&mut self) -> R {
        if self.dirty {
            settle(self.st())?;
            self.dirty = false;
        }
        Ok(())
    }
    pub fn saved_may_be_stale(&self) -> bool {
        self.unsynced && self.cursor <= self.high
    }
    /// Like settle, but certain: undo and redo are answered by the saving thread in its turn.
    /// (The undo and redo leave notifications behind.)
    pub fn settle_surely(&mut self) -> R {
        self.settle()?;
        if self.saved_may_be_stale() && self.cursor > self.floor && self.store.as_ref().unwrap().can_undo() {
            self.st().undo();
            self.st().redo();
            self.unsynced = false;
        }
        Ok(())
    }
    pub fn close(&mut self) -> R {
        self.settle()?;
        if let Some(s) = self.store.take() {
            drop(ManuallyDrop::into_inner(s));
        }
        Ok(())
    }

    // ---- generation ----

    fn present_notes(&self) -> Vec<Rc<Note>> {
        self.model().note_repo().iter().map(|(_, n)| n.clone()).collect()
    }

    fn everything(&self) -> Models {
        let m = self.model();
        let mut out = Models::empty();
        out.notes = m.note_repo().iter().map(|(_, n)| (**n).clone()).collect();
        out.bars = m.bar_repo().iter().map(|(_, x)| *x).collect();
        out.tempos = m.tempo_repo().iter().map(|(_, x)| *x).collect();
        out.dumpers = m.dumper_repo().iter().map(|(_, x)| *x).collect();
        out.softs = m.soft_repo().iter().map(|(_, x)| *x).collect();
        out
    }

    fn gen_meta(r: &mut Rng) -> ModelChangeMetadata {
        meta_of(*r.pick(&[None, None, Some(true), Some(true), Some(false)]), r.chance(1, 6))
    }

    fn free_tick(&self, r: &mut Rng, taken: impl Fn(u32) -> bool) -> Option<u32> {
        for _ in 0..8 {
            let t = self.ticks.tick(r);
            if !taken(t) {
                return Some(t);
            }
        }
        None
    }

    /// Where something can be put in the upper half of the ticks without bars being made on the way there.
    fn far_room(&self) -> Option<(u32, u32)> {
        let last = self.model().bar_repo().iter().map(|(k, _)| *k).max()?;
        if last >= FAR + 500_000 {
            Some((FAR, last - 400_000))
        } else {
            None
        }
    }

    fn far_tick(&self, r: &mut Rng, cfg: &Cfg) -> Option<u32> {
        if !cfg.far_bars || !r.chance(1, 3) {
            return None;
        }
        let (lo, hi) = self.far_room()?;
        Some(match r.below(3) {
            0 => lo + r.below(3) as u32,
            1 => hi - r.below(3) as u32,
            _ => r.range(lo as i64, hi as i64) as u32,
        })
    }

    /// Something but bars lies in the upper half: the far bars must stay, or millions would be made.
    fn far_items(&self) -> bool {
        let m = self.model();
        m.note_repo().iter().any(|(k, _)| *k >= FAR - 400_000)
            || m.tempo_repo().iter().any(|(k, _)| *k >= FAR - 400_000)
            || m.dumper_repo().iter().any(|(k, _)| *k >= FAR - 400_000)
            || m.soft_repo().iter().any(|(k, _)| *k >= FAR - 400_000)
    }

    fn gen_removal(&self, r: &mut Rng, cfg: &Cfg) -> Models {
        let mut out = self.gen_removal_of_any(r, cfg);
        if self.far_items() {
            out.bars.retain(|b| b.start_tick < FAR);
        }
        out
    }

    fn gen_changes(&self, r: &mut Rng, cfg: &Cfg) -> Changes {
        let mut out = self.gen_changes_of_any(r, cfg);
        if self.far_items() {
            out.bars.retain(|(f, _)| f.start_tick < FAR);
        }
        out
    }

    fn gen_removal_of_any(&self, r: &mut Rng, cfg: &Cfg) -> Models {
        let m = self.model();
        let mut out = Models::empty();
        let all = r.chance(1, 10) && cfg.giant.is_none();
        let most = if cfg.big { 400 } else { 6 };
        let share = |r: &mut Rng, n: u64| if cfg.big { r.chance(1, 2) } else { r.chance(2, 2 + n) };
        let notes = self.present_notes();
        if !notes.is_empty() {
            for n in notes.iter() {
                if all || (out.notes.len() < most && share(r, notes.len() as u64)) {
                    out.notes.push((**n).clone());
                }
            }
        }
        macro_rules! keyed {
            ($repo:expr, $out:expr) => {
                let n = $repo.len() as u64;
                for (_, b) in $repo.iter() {
                    if all || ($out.len() < most && share(r, n)) {
                        $out.push(*b);
                    }
                }
            };
        }
        if r.chance(2, 3) || all {
            keyed!(m.bar_repo(), out.bars);
        }
        if r.chance(2, 3) || all {
            keyed!(m.tempo_repo(), out.tempos);
        }
        if r.chance(2, 3) || all {
            keyed!(m.dumper_repo(), out.dumpers);
        }
        if r.chance(2, 3) || all {
            keyed!(m.soft_repo(), out.softs);
        }
        // what the caller believes to be there is out of date: another content at the same tick
        if r.chance(1, 4) {
            macro_rules! stale {
                ($v:expr, $new:expr) => {
                    for x in $v.iter_mut() {
                        if r.chance(1, 2) {
                            let mut y = $new;
                            y.start_tick = x.start_tick;
                            *x = y;
                        }
                    }
                };
            }
            stale!(out.bars, gen::bar(r, &self.ticks));
            stale!(out.tempos, gen::tempo(r, &self.ticks));
            stale!(out.dumpers, gen::ctrl(r, &self.ticks));
            stale!(out.softs, gen::ctrl(r, &self.ticks));
        }
        // the same item twice, and items that are not there
        if r.chance(1, 3) {
            if let Some(n) = out.notes.first().cloned() {
                out.notes.push(n);
            }
            if let Some(b) = out.bars.first().copied() {
                out.bars.push(b);
            }
            if let Some(b) = out.tempos.last().copied() {
                out.tempos.push(b);
            }
            if let Some(b) = out.dumpers.first().copied() {
                out.dumpers.push(b);
            }
            if let Some(b) = out.softs.last().copied() {
                out.softs.push(b);
            }
        }
        if r.chance(1, 3) {
            out.notes.push(gen::note(r, &self.ticks, cfg.wild));
            if let Some(t) = self.free_tick(r, |t| m.bar_repo().iter().any(|(k, _)| *k == t)) {
                let mut b = gen::bar(r, &self.ticks);
                b.start_tick = t;
                out.bars.push(b);
            }
            if let Some(t) = self.free_tick(r, |t| m.tempo_repo().iter().any(|(k, _)| *k == t)) {
                let mut b = gen::tempo(r, &self.ticks);
                b.start_tick = t;
                out.tempos.push(b);
            }
            if let Some(t) = self.free_tick(r, |t| m.dumper_repo().iter().any(|(k, _)| *k == t)) {
                let mut b = gen::ctrl(r, &self.ticks);
                b.start_tick = t;
                out.dumpers.push(b);
            }
            if let Some(t) = self.free_tick(r, |t| m.soft_repo().iter().any(|(k, _)| *k == t)) {
                let mut b = gen::ctrl(r, &self.ticks);
                b.start_tick = t;
                out.softs.push(b);
            }
        }
        out
    }

    fn alter_note(&self, r: &mut Rng, n: &Note, cfg: &Cfg) -> Note {
        let d = r.range(-300, 300) as i32;
        match r.below(8) {
            0 => n.with_tick_added(d, false).unwrap_or_else(|_| n.clone()),
            1 => n.with_tick_added(d, true).unwrap_or_else(|_| n.clone()),
            2 => n.up_score_offset().unwrap_or_else(|_| n.clone()),
            3 => n.toggle_sharp().unwrap_or_else(|_| n.clone()),
            4 => n.with_duration(gen::duration(r)),
            5 => n.toggle_tie(),
            6 => {
                let mut c = n.clone();
                c.base_start_tick = self.ticks.tick(r);
                c
            }
            _ => gen::note(r, &self.ticks, cfg.wild),
        }
    }

    fn gen_changes_of_any(&self, r: &mut Rng, cfg: &Cfg) -> Changes {
        let m = self.model();
        let mut c = Changes::default();
        let notes = self.present_notes();
        if !notes.is_empty() && r.chance(3, 4) {
            let most = if cfg.big { r.range(1, notes.len() as i64) } else { r.range(1, 4) };
            for _ in 0..most {
                let n = r.pick(&notes).clone();
                c.notes.push(((*n).clone(), self.alter_note(r, &n, cfg)));
            }
            if notes.len() > 1 && r.chance(1, 4) {
                // exchange two notes
                let (a, b) = ((**r.pick(&notes)).clone(), (**r.pick(&notes)).clone());
                c.notes.push((a.clone(), b.clone()));
                c.notes.push((b, a));
            }
        }
        if r.chance(1, 6) {
            c.notes.push((gen::note(r, &self.ticks, cfg.wild), gen::note(r, &self.ticks, cfg.wild)));
        }
        macro_rules! keyed {
            ($repo:expr, $out:expr, $new:expr) => {
                if $repo.len() > 0 && r.chance(1, 2) {
                    let shift = r.chance(1, 4);
                    let d = r.range(-200, 200);
                    let common = self.ticks.tick(r);
                    let many = if r.chance(1, 6) { $repo.len().min(if cfg.big { 400 } else { 8 }) } else { r.range(1, 3) as usize };
                    for i in 0..many {
                        let from = if many > 3 { $repo.iter().nth(i).unwrap().1 } else { r.pick($repo.as_ref()).1 };
                        let mut to = if r.chance(1, 2) { from } else { $new };
                        to.start_tick = match r.below(6) {
                            _ if shift => (from.start_tick as i64 + d).max(0) as u32,
                            0 => from.start_tick,
                            1 => r.pick($repo.as_ref()).0,
                            2 => common,
                            3 => (from.start_tick as i64 + r.range(-50, 50)).max(0) as u32,
                            _ => self.ticks.tick(r),
                        };
                        $out.push((from, to));
                    }
                    if $repo.len() > 1 && r.chance(1, 4) {
                        let (a, b) = (r.pick($repo.as_ref()).1, r.pick($repo.as_ref()).1);
                        let (mut a2, mut b2) = (a, b);
                        std::mem::swap(&mut a2.start_tick, &mut b2.start_tick);
                        $out.push((a, a2));
                        $out.push((b, b2));
                    }
                }
                if r.chance(1, 8) {
                    if let Some(t) = self.free_tick(r, |t| $repo.iter().any(|(k, _)| *k == t)) {
                        let mut from = $new;
                        from.start_tick = t;
                        $out.push((from, $new));
                    }
                }
            };
        }
        keyed!(m.bar_repo(), c.bars, gen::bar(r, &self.ticks));
        keyed!(m.tempo_repo(), c.tempos, gen::tempo(r, &self.ticks));
        keyed!(m.dumper_repo(), c.dumpers, gen::ctrl(r, &self.ticks));
        keyed!(m.soft_repo(), c.softs, gen::ctrl(r, &self.ticks));
        // what the caller believes to be there is out of date: another content at the same tick
        if r.chance(1, 4) {
            macro_rules! stale {
                ($v:expr, $new:expr) => {
                    for (from, _) in $v.iter_mut() {
                        if r.chance(1, 2) {
                            let mut y = $new;
                            y.start_tick = from.start_tick;
                            *from = y;
                        }
                    }
                };
            }
            stale!(c.bars, gen::bar(r, &self.ticks));
            stale!(c.tempos, gen::tempo(r, &self.ticks));
            stale!(c.dumpers, gen::ctrl(r, &self.ticks));
            stale!(c.softs, gen::ctrl(r, &self.ticks));
        }
        c
    }

    fn gen_tuplet(&self, r: &mut Rng, cfg: &Cfg) -> Vec<Rc<Note>> {
        let notes = self.present_notes();
        let mut sel: Vec<Rc<Note>> = vec![];
        if !notes.is_empty() {
            for _ in 0..if cfg.big { r.range(0, 60) } else { r.range(0, 5) } {
                let n = r.pick(&notes).clone();
                if r.chance(1, 10) || !sel.iter().any(|s| Rc::ptr_eq(s, &n)) {
                    sel.push(n);
                }
            }
        }
        if r.chance(1, 10) {
            sel.push(Rc::new(gen::note(r, &self.ticks, cfg.wild)));
        }
        sel
    }

    pub fn gen_op(&self, r: &mut Rng, cfg: &Cfg) -> Op {
        let total: u64 = cfg.w.iter().sum();
        let mut x = r.below(total);
        let mut k = 0;
        while x >= cfg.w[k] {
            x -= cfg.w[k];
            k += 1;
        }
        let t = &self.ticks;
        match k {
            0 => match r.below(3) {
                0 => Op::SetRhythm(gen::rhythm(r)),
                1 => Op::SetKey(gen::key(r)),
                _ => Op::SetGrid(gen::grid(r)),
            },
            1 => {
                let far = self.far_tick(r, cfg);
                let mut n = if r.chance(1, 8) {
                    let tk = t.tick(r);
                    gen::long_note(r, tk)
                } else if r.chance(1, 8) && self.model().note_repo().len() > 0 {
                    (**r.pick(&self.present_notes())).clone()
                } else {
                    gen::note(r, t, cfg.wild)
                };
                if let Some(f) = far {
                    n.base_start_tick = f;
                }
                Op::AddNote(n, r.chance(1, 2))
            }
            2 => {
                let mut b = gen::bar(r, t);
                if cfg.far_bars && r.chance(1, 3) {
                    // (what else lies that far lies well before it, so that no bars are made on the way there)
                    b.start_tick = match r.below(4) {
                        0 => u32::MAX - r.below(3) as u32,
                        1 => i32::MAX as u32 - 2 + r.below(5) as u32,
                        2 => u32::MAX - r.below(20_000) as u32,
                        _ => (1u32 << 31) + (r.u64() as u32 >> 1),
                    };
                }
                Op::AddBar(b, r.chance(1, 2))
            }
            3 => {
                let far = self.far_tick(r, cfg);
                let mut x = gen::tempo(r, t);
                x.start_tick = far.unwrap_or(x.start_tick);
                Op::AddTempo(x, r.chance(1, 2))
            }
            4 => {
                let far = self.far_tick(r, cfg);
                let mut x = gen::ctrl(r, t);
                x.start_tick = far.unwrap_or(x.start_tick);
                Op::AddDumper(x, r.chance(1, 2))
            }
            5 => {
                let far = self.far_tick(r, cfg);
                let mut x = gen::ctrl(r, t);
                x.start_tick = far.unwrap_or(x.start_tick);
                Op::AddSoft(x, r.chance(1, 2))
            }
            6 => Op::Tuplize(self.gen_tuplet(r, cfg)),
            7 => Op::Remove(self.gen_removal(r, cfg), Self::gen_meta(r)),
            8 => {
                let mut m = gen::models(r, t, cfg.wild, cfg.max_each);
                if r.chance(1, 5) {
                    // paste a part of what is there
                    for n in self.present_notes().iter().take(3) {
                        m.notes.push((**n).clone());
                    }
                    for (_, b) in self.model().bar_repo().iter().take(2) {
                        m.bars.push(*b);
                    }
                    for (_, b) in self.model().tempo_repo().iter().take(2) {
                        m.tempos.push(*b);
                    }
                    let to = t.tick(r);
                    let far = m.notes.iter().map(|n| n.base_start_tick).chain(m.bars.iter().map(|b| b.start_tick)).chain(m.tempos.iter().map(|x| x.start_tick)).any(|t| t >= FAR - 400_000);
                    if r.chance(1, 2) && !far {
                        m = m.move_to_tick(to);
                    }
                }
                Op::Add(m, Self::gen_meta(r))
            }
            9 => Op::Change(self.gen_changes(r, cfg), Self::gen_meta(r)),
            10 => Op::Undo(match r.below(4) {
                0 => 1 + r.usize(5),
                1 if r.chance(1, 3) => usize::MAX,
                _ => 1,
            }),
            11 => Op::Redo(match r.below(4) {
                0 => 1 + r.usize(5),
                1 if r.chance(1, 2) => usize::MAX,
                _ => 1,
            }),
            12 => Op::Clear,
            13 => Op::Reopen,
            _ => Op::SaveAs,
        }
    }

    // ---- one step, watched ----

    pub fn step(&mut self, case: &mut Case, op: Op, mon: &Mon) -> R {
        case.count(
            match op.kind() {
                "undo" => "op_undo",
                "redo" => "op_redo",
                "reopen" => "op_reopen",
                "save_as" => "op_save_as",
                "change" => "op_change",
                "bulk_add" => "op_bulk_add",
                "bulk_remove" => "op_bulk_remove",
                "tuplize" => "op_tuplize",
                "clear_events" => "op_clear_events",
                _ => "op_other_edit",
            },
            1,
        );
        match op {
            Op::Undo(n) => self.walk_undo(case, n, mon)?,
            Op::Redo(n) => self.walk_redo(case, n, mon)?,
            Op::Clear => self.clear(mon)?,
            Op::Reopen => self.reopen(case, mon)?,
            Op::SaveAs => self.save_as(case, mon)?,
            op => self.edit(case, op, mon)?,
        }
        Ok(())
    }

    fn check_offers(&mut self, mon: &Mon, when: &str) -> R {
        if !(mon.undo || mon.redo || mon.reopen) {
            return Ok(());
        }
        self.settle()?;
        let (cu, cr) = {
            let s = self.store.as_ref().unwrap();
            (s.can_undo(), s.can_redo())
        };
        let (eu, er) = (self.cursor > self.floor, self.cursor + 1 < self.hist.len());
        if mon.undo || mon.reopen {
            ensure!(cu == eu, format!("can_undo-{}", when), "undo is {}offered {} although {} retained edits are before the current position ({} edits, position {}, limit {})",
                if cu { "" } else { "not " }, when, self.cursor - self.floor, self.hist.len() - 1, self.cursor, self.limit);
        }
        if mon.redo || mon.reopen {
            ensure!(cr == er, format!("can_redo-{}", when), "redo is {}offered {} although {} undone edits exist (position {})",
                if cr { "" } else { "not " }, when, self.hist.len() - 1 - self.cursor, self.cursor);
        }
        Ok(())
    }

    fn walk_undo(&mut self, case: &mut Case, n: usize, mon: &Mon) -> R {
        self.settle()?;
        let mut k = 0;
        while k < n && self.cursor > self.floor {
            self.check_offers(mon, "before-undo")?;
            if !self.store.as_ref().unwrap().can_undo() {
                return Ok(()); // reported by C01; here nothing more can be watched
            }
            self.high = self.high.max(self.cursor);
            self.unsynced = false;
            self.st().undo();
            self.cursor -= 1;
            k += 1;
            let now = self.snap();
            case.eval();
            if mon.undo || mon.redo || mon.reopen {
                let want = &self.hist[self.cursor];
                ensure!(now == **want, "undo-state", "after undo at position {} of {}: {}", self.cursor, self.hist.len() - 1, now.diff(want, "now", "recorded before the edit"));
            }
            let walked = self.asked[self.cursor + 1];
            self.after(case, mon, None, walked, &now)?;
        }
        self.check_offers(mon, "after-undo")
    }

    fn walk_redo(&mut self, case: &mut Case, n: usize, mon: &Mon) -> R {
        self.settle()?;
        let mut k = 0;
        while k < n && self.cursor + 1 < self.hist.len() {
            self.check_offers(mon, "before-redo")?;
            if !self.store.as_ref().unwrap().can_redo() {
                return Ok(());
            }
            self.st().redo();
            self.unsynced = false;
            self.cursor += 1;
            k += 1;
            let now = self.snap();
            case.eval();
            if mon.redo || mon.undo || mon.reopen {
                let want = &self.hist[self.cursor];
                ensure!(now == **want, "redo-state", "after redo at position {} of {}: {}", self.cursor, self.hist.len() - 1, now.diff(want, "now", "recorded after the edit"));
            }
            let walked = self.asked[self.cursor];
            self.after(case, mon, None, walked, &now)?;
        }
        self.check_offers(mon, "after-redo")
    }

    fn clear(&mut self, mon: &Mon) -> R {
        let before = self.snap();
        self.st().clear_model_events();
        let now = self.snap();
        if mon.events {
            ensure!(now == before, "clear-content", "clearing the notifications changed the content: {}", now.diff(&before, "now", "before"));
            let s = self.store.as_ref().unwrap();
            let n = [s.note_events().len(), s.bar_events().len(), s.tempo_events().len(), s.dumper_events().len(), s.soft_events().len()];
            ensure!(n == [0; 5], "clear-left", "after clearing, notifications remain: notes/bars/tempos/dampers/softs {:?}", n);
        }
        self.mirror_reset(&now);
        Ok(())
    }

    fn reopen(&mut self, case: &mut Case, mon: &Mon) -> R {
        let before = self.snap();
        self.close()?;
        if mon.reopen {
            ensure!(!self.dir.join("lock").exists(), "lock-left", "closing left the lock file behind");
        }
        let store = match open_store(&self.dir, self.limit) {
            Ok(s) => s,
            Err(e) => return fail("reopen", format!("the project cannot be reopened: {}", e)),
        };
        self.store = Some(ManuallyDrop::new(store));
        case.count("reopens", 1);
        case.eval();
        let now = self.snap();
        if mon.reopen {
            ensure!(now == before, "reopen-state", "reopened content differs: {}", now.diff(&before, "now", "when closed"));
        }
        if now == before {
            self.check_offers(mon, "after-reopen")?;
        }
        if mon.events {
            // the notifications of an opened project start from nothing or have been cleared
            self.st().clear_model_events();
            self.mirror_reset(&now);
        }
        self.states.push(now.hash64());
        Ok(())
    }

    fn save_as(&mut self, case: &mut Case, mon: &Mon) -> R {
        self.settle_surely()?;
        let before = self.snap();
        if mon.events {
            self.mirror_check(case, None, None, &before)?;
        }
        self.copies += 1;
        let to = self.dir.with_extension(format!("copy{}", self.copies));
        let _ = std::fs::create_dir_all(&to);
        if let Err(e) = self.st().save_as(&to) {
            return fail("save_as", format!("save-as failed: {:?}", e));
        }
        let now = self.snap();
        ensure!(!mon.reopen || now == before, "save_as-original", "save-as changed the project: {}", now.diff(&before, "now", "before"));
        if mon.reopen {
            let mut copy = match open_store(&to, self.limit) {
                Ok(s) => ManuallyDrop::new(s),
                Err(e) => return fail("save_as-open", format!("the copy cannot be opened: {}", e)),
            };
            case.eval();
            let c = Snap::of(copy.model());
            ensure!(c == before, "save_as-state", "the copy differs from the original at the time of the copy: {}", c.diff(&before, "copy", "original"));
            // walk through the retained history in the copy
            let (mut pos, mut steps) = (self.cursor, 0);
            while pos > self.floor && steps < 12 {
                ensure!(copy.can_undo(), "save_as-can_undo", "the copy does not offer undo at position {} (floor {})", pos, self.floor);
                copy.undo();
                pos -= 1;
                steps += 1;
                let c = Snap::of(copy.model());
                ensure!(c == *self.hist[pos], "save_as-undo", "undo in the copy shows another state: {}", c.diff(&self.hist[pos], "copy", "recorded"));
            }
            while pos + 1 < self.hist.len() && steps < 30 {
                ensure!(copy.can_redo(), "save_as-can_redo", "the copy does not offer redo at position {}", pos);
                copy.redo();
                pos += 1;
                steps += 1;
                let c = Snap::of(copy.model());
                ensure!(c == *self.hist[pos], "save_as-redo", "redo in the copy shows another state: {}", c.diff(&self.hist[pos], "copy", "recorded"));
            }
            case.count("copy_steps", steps as u64);
            drop(ManuallyDrop::into_inner(copy));
            let now = self.snap();
            ensure!(now == before, "save_as-shared", "using the copy changed the original: {}", now.diff(&before, "now", "before"));
        }
        let _ = std::fs::remove_dir_all(&to);
        Ok(())
    }

    fn apply(&mut self, op: &Op) {
        let s = self.st();
        match op.clone() {
            Op::SetRhythm(r) => s.set_rhythm(r),
            Op::SetKey(k) => s.set_key(k),
            Op::SetGrid(g) => s.set_grid(g),
            Op::AddNote(n, b) => s.add_note(n, b),
            Op::AddBar(n, b) => s.add_bar(n, b),
            Op::AddTempo(n, b) => s.add_tempo(n, b),
            Op::AddDumper(n, b) => s.add_dumper(n, b),
            Op::AddSoft(n, b) => s.add_soft(n, b),
            Op::Tuplize(v) => s.tuplize(v),
            Op::Remove(m, md) => s.bulk_remove(m, md),
            Op::Add(m, md) => s.bulk_add(m, md),
            Op::Change(c, md) => s.change(c.build(), md),
            _ => unreachable!(),
        }
    }

    fn edit(&mut self, case: &mut Case, op: Op, mon: &Mon) -> R {
        let before = self.hist[self.cursor].clone();
        let live = self.snap();
        // (a difference here has been reported by the monitor that owns it)
        let before = if live == *before { before } else { Rc::new(live) };
        let want = Expect::of(&before, &op, self.model());
        if self.far_items() {
            case.count("edits_with_items_in_the_upper_half", 1);
        }
        let touched = match &op {
            Op::Remove(m, _) | Op::Add(m, _) => m.notes.len() + m.bars.len() + m.tempos.len() + m.dumpers.len() + m.softs.len(),
            Op::Change(c, _) => c.notes.len() + c.bars.len() + c.tempos.len() + c.dumpers.len() + c.softs.len(),
            _ => 1,
        };
        if touched > 64 {
            case.count("edits_of_more_than_64_items", 1);
        }
        self.apply(&op);
        let now = self.snap();
        case.eval();
        let changed = now != *before;
        if changed {
            case.nontrivial(now.hash64() ^ crate::rng::hash_bytes(op.kind().as_bytes()));
        } else {
            case.count("edits_without_effect", 1);
        }
        if mon.edits {
            want.check_edit(&now, &op)?;
        }
        if mon.bars {
            want.check_bars(case, &now, &op, &before)?;
        }
        if want.recorded {
            self.hist.truncate(self.cursor + 1);
            self.hist.push(Rc::new(now.clone()));
            self.asked.truncate(self.cursor + 1);
            self.asked.push(Some(op.asked()));
            self.cursor += 1;
            if self.cursor > self.limit {
                self.floor = self.floor.max(self.cursor - self.limit);
            }
            self.dirty = true;
            self.unsynced = true;
        }
        self.after(case, mon, Some((&op, &want)), None, &now)?;
        if case.rng.chance(1, 4) {
            self.check_offers(mon, "after-edit")?;
        }
        Ok(())
    }

    fn after(&mut self, case: &mut Case, mon: &Mon, edit: Option<(&Op, &Expect)>, walked: Option<Asked>, now: &Snap) -> R {
        self.states.push(now.hash64());
        if mon.events {
            self.mirror_check(case, edit, walked, now)?;
        }
        let store: &ProjectStore = self.store.as_ref().unwrap();
        // the model and the store a program holds are asked in turn
        let p: &dyn Reads = if (mon.lookups || mon.locations) && case.rng.chance(1, 2) { store } else { store.model() };
        if mon.lookups {
            check_lookups(case, p, now)?;
        }
        if mon.locations {
            check_locations(case, p, now)?;
        }
        if mon.edits && case.rng.chance(1, 4) {
            let shown = Snap::of(store);
            ensure!(shown == *now, "store-view", "the project store shows something else than its model: {}", shown.diff(now, "in the store", "in the model"));
        }
        Ok(())
    }

    // ---- C08 ----

    fn mirror_reset(&mut self, now: &Snap) {
        self.mirror = Mirror {
            notes: note_counts(now),
            bars: now.bars.iter().cloned().collect(),
            tempos: now.tempos.iter().cloned().collect(),
            dumpers: now.dumpers.iter().cloned().collect(),
            softs: now.softs.iter().cloned().collect(),
            seen: [0; 5],
        };
        let s = self.store.as_ref().unwrap();
        self.mirror.seen = [s.note_events().len(), s.bar_events().len(), s.tempo_events().len(), s.dumper_events().len(), s.soft_events().len()];
    }

    /// `walked`: the selection request of the edit that was just undone or redone.
    fn mirror_check(&mut self, case: &mut Case, edit: Option<(&Op, &Expect)>, walked: Option<Asked>, now: &Snap) -> R {
        let s = self.store.as_ref().unwrap();
        let asked: Option<Asked> = edit.map(|(o, _)| o.asked()).or(walked);
        // (bars brought back by undo or redo may be automatic ones, which nobody asked for)
        let asked_bars = edit.map(|(o, _)| o.asked());
        let named = edit.map(|(_, e)| e);
        let mut n_events = 0;
        // notes
        {
            let ev = s.note_events();
            ensure!(ev.len() >= self.mirror.seen[0], "note-events-lost", "recorded note notifications disappeared");
            let m = &mut self.mirror.notes;
            let select = |md: &ModelChangeMetadata| -> R {
                if let Some(a) = asked {
                    ensure!(md.need_select == a.0, "note-select", "a note notification carries the selection request {:?}, the edit asked for {:?}", md.need_select, a.0);
                    ensure!(md.dragged == a.1, "note-dragged", "a note notification is marked as {}dragged, unlike the edit", if md.dragged { "" } else { "not " });
                }
                Ok(())
            };
            fn put(m: &mut BTreeMap<Rec, usize>, r: Rec) {
                *m.entry(r).or_default() += 1;
            }
            fn take(m: &mut BTreeMap<Rec, usize>, r: &Rec) -> R {
                match m.get_mut(r) {
                    Some(1) => {
                        m.remove(r);
                        Ok(())
                    }
                    Some(n) => {
                        *n -= 1;
                        Ok(())
                    }
                    None => fail("note-removed-absent", format!("a notification removes a note that is not there: {:?}", r)),
                }
            }
            for e in &ev[self.mirror.seen[0]..] {
                n_events += 1;
                match e {
                    BagStoreEvent::Added { added, metadata } => {
                        select(metadata)?;
                        put(m, note_rec(added));
                    }
                    BagStoreEvent::AddedVec { added, metadata } => {
                        if !added.is_empty() {
                            select(metadata)?;
                        }
                        added.iter().for_each(|n| put(m, note_rec(n)));
                    }
                    BagStoreEvent::Removed(n) => take(m, &note_rec(n))?,
                    BagStoreEvent::RemovedVec(v) => {
                        for n in v {
                            take(m, &note_rec(n))?;
                        }
                    }
                    BagStoreEvent::ClearedAll => m.clear(),
                    BagStoreEvent::Changed { from_to, removed, metadata } => {
                        if !from_to.is_empty() {
                            select(metadata)?;
                        }
                        for (f, _) in from_to {
                            take(m, &note_rec(&f.1))?;
                        }
                        for (_, t) in from_to {
                            put(m, note_rec(&t.1));
                        }
                        for n in removed {
                            take(m, &note_rec(&n.1))?;
                        }
                    }
                    BagStoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                        if !added.is_empty() {
                            select(metadata)?;
                        }
                        added.iter().for_each(|n| put(m, note_rec(&n.1)));
                        for n in removed {
                            take(m, &note_rec(&n.1))?;
                        }
                    }
                }
            }
            self.mirror.seen[0] = ev.len();
            let real = note_counts(now);
            ensure!(*m == real, "note-mirror", "replaying the note notifications gives {} notes, the project has {}: only or more often replayed {:?}, only or more often in the project {:?}",
                m.values().sum::<usize>(), now.notes.len(), m.iter().filter(|(k, n)| real.get(*k) < Some(*n)).take(2).collect::<Vec<_>>(), real.iter().filter(|(k, n)| m.get(*k) < Some(*n)).take(2).collect::<Vec<_>>());
        }
        // keyed kinds
        n_events += keyed_mirror("bar", s.bar_events(), &mut self.mirror.seen[1], &mut self.mirror.bars, bar_rec, |b| b.start_tick, asked_bars, named.map(|e| &e.named_bars), &now.bars)?;
        n_events += keyed_mirror("tempo", s.tempo_events(), &mut self.mirror.seen[2], &mut self.mirror.tempos, tempo_rec, |b| b.start_tick, asked, None, &now.tempos)?;
        n_events += keyed_mirror("damper", s.dumper_events(), &mut self.mirror.seen[3], &mut self.mirror.dumpers, ctrl_rec, |b| b.start_tick, asked, None, &now.dumpers)?;
        n_events += keyed_mirror("soft", s.soft_events(), &mut self.mirror.seen[4], &mut self.mirror.softs, ctrl_rec, |b| b.start_tick, asked, None, &now.softs)?;
        case.count("events_replayed", n_events);
        Ok(())
    }
}

fn note_counts(now: &Snap) -> BTreeMap<Rec, usize> {
    let mut m = BTreeMap::new();
    for (_, n) in &now.notes {
        *m.entry(n.clone()).or_default() += 1;
    }
    m
}

#[allow(clippy::too_many_arguments)]
fn keyed_mirror<T: Clone>(
    name: &'static str,
    ev: &[StoreEvent<u32, T, ModelChangeMetadata>],
    seen: &mut usize,
    m: &mut Keyed,
    rec: impl Fn(&T) -> Rec,
    tick: impl Fn(&T) -> u32,
    asked: Option<Asked>,
    named: Option<&Vec<Rec>>,
    now: &[(i64, Rec)],
) -> Result<u64, crate::frame::Fail> {
    ensure!(ev.len() >= *seen, format!("{}-events-lost", name), "recorded {} notifications disappeared", name);
    let select = |md: &ModelChangeMetadata, items: &[Rec]| -> R {
        if let Some(a) = asked {
            // bars made automatically are not part of what the edit asked for
            let asked_for = match named {
                Some(n) => items.iter().any(|i| n.contains(i)),
                None => !items.is_empty(),
            };
            if asked_for {
                ensure!(md.need_select == a.0, format!("{}-select", name), "a {} notification carries the selection request {:?}, the edit asked for {:?}", name, md.need_select, a.0);
                ensure!(md.dragged == a.1, format!("{}-dragged", name), "a {} notification is marked as {}dragged, unlike the edit", name, if md.dragged { "" } else { "not " });
            } else if !items.is_empty() {
                ensure!(md.need_select != Some(true), format!("{}-select-auto", name), "an automatically made {} asks to be selected", name);
            }
        }
        Ok(())
    };
    fn take(m: &mut Keyed, k: i64, r: &Rec, name: &str) -> R {
        match m.get(&k) {
            Some(x) if x == r => {
                m.remove(&k);
                Ok(())
            }
            other => fail(format!("{}-removed-absent", name), format!("a notification removes the {} {:?}, but at that tick there is {:?}", name, r, other)),
        }
    }
    let mut n = 0;
    for e in &ev[*seen..] {
        n += 1;
        match e {
            StoreEvent::Added { added, metadata } => {
                select(metadata, &[rec(added)])?;
                m.insert(tick(added) as i64, rec(added));
            }
            StoreEvent::Removed(t) => take(m, tick(t) as i64, &rec(t), name)?,
            StoreEvent::ClearedAll => m.clear(),
            StoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                let items: Vec<Rec> = added.iter().map(|a| rec(&a.1)).collect();
                select(metadata, &items)?;
                let mut gone: Vec<Rec> = vec![];
                for a in added {
                    if let Some(old) = m.insert(a.0 as i64, rec(&a.1)) {
                        gone.push(old);
                    }
                }
                for r in removed {
                    let x = rec(&r.1);
                    if let Some(i) = gone.iter().position(|g| *g == x) {
                        gone.remove(i);
                    } else {
                        take(m, r.0 as i64, &x, name)?;
                    }
                }
            }
            StoreEvent::Changed { from_to, removed, metadata } => {
                let items: Vec<Rec> = from_to.iter().map(|a| rec(&a.1 .1)).collect();
                select(metadata, &items)?;
                for (f, _) in from_to {
                    take(m, f.0 as i64, &rec(&f.1), name)?;
                }
                let mut gone: Vec<Rec> = vec![];
                for (_, t) in from_to {
                    if let Some(old) = m.insert(t.0 as i64, rec(&t.1)) {
                        gone.push(old);
                    }
                }
                for r in removed {
                    let x = rec(&r.1);
                    if let Some(i) = gone.iter().position(|g| *g == x) {
                        gone.remove(i);
                    } else {
                        take(m, r.0 as i64, &x, name)?;
                    }
                }
            }
        }
    }
    *seen = ev.len();
    let real: Keyed = now.iter().cloned().collect();
    ensure!(*m == real, format!("{}-mirror", name), "replaying the {} notifications gives {:?}, the project has {:?}", name,
        m.iter().filter(|(k, v)| real.get(k) != Some(v)).take(3).collect::<Vec<_>>(), real.iter().filter(|(k, v)| m.get(k) != Some(v)).take(3).collect::<Vec<_>>());
    Ok(n)
}

// ---- what one edit should do (C05, C09) ----

pub struct Expect {
    snap: Snap, // bars without the automatic ones
    pub recorded: bool,
    pub named_bars: Vec<Rec>,
    acts: bool,
}

fn keyed_put(m: &mut BTreeMap<i64, Rec>, r: Rec) {
    m.insert(r[0], r);
}

/// Returns the new items of the changes that had something to change.
fn keyed_change(v: &mut Vec<(i64, Rec)>, ch: &[(Rec, Rec)]) -> Vec<Rec> {
    let mut m: BTreeMap<i64, Rec> = v.iter().cloned().collect();
    let mut present = vec![];
    for (f, t) in ch {
        if m.remove(&f[0]).is_some() {
            present.push(t.clone());
        }
    }
    for t in present.iter() {
        keyed_put(&mut m, t.clone());
    }
    *v = m.into_iter().collect();
    present
}

fn keyed_add(v: &mut Vec<(i64, Rec)>, add: impl Iterator<Item = Rec>) {
    let mut m: BTreeMap<i64, Rec> = v.iter().cloned().collect();
    for a in add {
        keyed_put(&mut m, a);
    }
    *v = m.into_iter().collect();
}

fn keyed_del(v: &mut Vec<(i64, Rec)>, del: impl Iterator<Item = Rec>) {
    let mut m: BTreeMap<i64, Rec> = v.iter().cloned().collect();
    for a in del {
        m.remove(&a[0]);
    }
    *v = m.into_iter().collect();
}

impl Expect {
    pub fn of(before: &Snap, op: &Op, model: &ProjectImpl) -> Expect {
        let mut s = before.clone();
        let mut recorded = true;
        let mut acts = true;
        let mut named_bars = vec![];
        let nk = |n: &Note| (ref_start(n) as i64, note_rec(n));
        match op {
            Op::SetRhythm(r) => s.rhythm = rhythm_rec(*r),
            Op::SetKey(k) => s.key = k.offset() as i64,
            Op::SetGrid(g) => s.grid = g.as_u32() as i64,
            Op::AddNote(n, _) => s.notes.push(nk(n)),
            Op::AddBar(b, _) => {
                named_bars.push(bar_rec(b));
                keyed_add(&mut s.bars, std::iter::once(bar_rec(b)));
            }
            Op::AddTempo(t, _) => keyed_add(&mut s.tempos, std::iter::once(tempo_rec(t))),
            Op::AddDumper(t, _) => keyed_add(&mut s.dumpers, std::iter::once(ctrl_rec(t))),
            Op::AddSoft(t, _) => keyed_add(&mut s.softs, std::iter::once(ctrl_rec(t))),
            Op::Tuplize(v) => {
                // only what is there can be made a tuplet
                let mut there: Vec<(i64, Rec)> = s.notes.clone();
                let mut sel = vec![];
                for n in v {
                    if bag_remove(&mut there, &nk(n)) {
                        sel.push(n.clone());
                    }
                }
                if sel.len() < 2 {
                    recorded = false;
                    acts = false;
                } else {
                    s.notes = there;
                    for n in klavier_core::tuple::tuplize(sel) {
                        s.notes.push(nk(&n));
                    }
                }
            }
            Op::Remove(m, _) => {
                bag_remove_all(&mut s.notes, &m.notes.iter().map(nk).collect::<Vec<_>>());
                keyed_del(&mut s.bars, m.bars.iter().map(bar_rec));
                keyed_del(&mut s.tempos, m.tempos.iter().map(tempo_rec));
                keyed_del(&mut s.dumpers, m.dumpers.iter().map(ctrl_rec));
                keyed_del(&mut s.softs, m.softs.iter().map(ctrl_rec));
            }
            Op::Add(m, _) => {
                s.notes.extend(m.notes.iter().map(nk));
                named_bars.extend(m.bars.iter().map(bar_rec));
                keyed_add(&mut s.bars, m.bars.iter().map(bar_rec));
                keyed_add(&mut s.tempos, m.tempos.iter().map(tempo_rec));
                keyed_add(&mut s.dumpers, m.dumpers.iter().map(ctrl_rec));
                keyed_add(&mut s.softs, m.softs.iter().map(ctrl_rec));
            }
            Op::Change(c, _) => {
                let there = bag_remove_all(&mut s.notes, &c.notes.iter().map(|(f, _)| nk(f)).collect::<Vec<_>>());
                s.notes.extend(c.notes.iter().zip(there).filter(|(_, was)| *was).map(|((_, t), _)| nk(t)));
                named_bars.extend(keyed_change(&mut s.bars, &c.bars.iter().map(|(f, t)| (bar_rec(f), bar_rec(t))).collect::<Vec<_>>()));
                keyed_change(&mut s.tempos, &c.tempos.iter().map(|(f, t)| (tempo_rec(f), tempo_rec(t))).collect::<Vec<_>>());
                keyed_change(&mut s.dumpers, &c.dumpers.iter().map(|(f, t)| (ctrl_rec(f), ctrl_rec(t))).collect::<Vec<_>>());
                keyed_change(&mut s.softs, &c.softs.iter().map(|(f, t)| (ctrl_rec(f), ctrl_rec(t))).collect::<Vec<_>>());
            }
            _ => unreachable!(),
        }
        s.notes.sort();
        let _ = model;
        Expect { snap: s, recorded, named_bars, acts }
    }

    pub fn check_edit(&self, now: &Snap, op: &Op) -> R {
        let k = op.kind();
        let mut want = self.snap.clone();
        if op.covers_music() && self.acts {
            // automatically created bars are the only thing allowed on top
            let last = want.bars.last().map(|b| b.0).unwrap_or(-1);
            for b in &now.bars {
                if b.0 > last && b.1 == vec![b.0, -1, -1, -100, 0] {
                    want.bars.push(b.clone());
                }
            }
            want.bars.sort();
        }
        ensure!(*now == want, format!("edit-{}", k), "{}: {}", k, now.diff(&want, "in the project", "by the edit as asked"));
        for (t, n) in &now.notes {
            let l = n.len();
            ensure!(*t == n[l - 3], "note-key", "a note that starts at {} is filed at {}", n[l - 3], t);
        }
        Ok(())
    }

    pub fn check_bars(&self, case: &mut Case, now: &Snap, op: &Op, before: &Snap) -> R {
        let k = op.kind();
        let mut want: BTreeMap<i64, Rec> = self.snap.bars.iter().cloned().collect();
        if op.covers_music() && self.acts {
            let mut end = 0i64;
            for (_, n) in &now.notes {
                let l = n.len();
                end = end.max(n[l - 3] + n[l - 2]);
            }
            for v in [&now.tempos, &now.dumpers, &now.softs] {
                for (t, _) in v.iter() {
                    end = end.max(*t);
                }
            }
            let mut at = want.keys().next_back().copied().unwrap_or(0);
            let mut rhythm = now.rhythm;
            for (_, b) in want.iter() {
                if b[1] >= 0 {
                    rhythm = (b[1], b[2]);
                }
            }
            let len = rhythm.0 * 960 / rhythm.1;
            let mut made = 0;
            while at < end {
                at += len;
                want.insert(at, vec![at, -1, -1, -100, 0]);
                made += 1;
            }
            case.count("bars_made_automatically", made);
            if made > 0 {
                case.count("edits_that_made_bars", 1);
            }
            let last = now.bars.last().map(|b| b.0).unwrap_or(0);
            ensure!(last >= end, format!("uncovered-{}", k), "after {}, the music ends at tick {} but the last bar is at {}", k, end, last);
        }
        let want: Vec<(i64, Rec)> = want.into_iter().collect();
        if now.bars != want {
            let extra: Vec<_> = now.bars.iter().filter(|b| !want.contains(b)).take(3).collect();
            let missing: Vec<_> = want.iter().filter(|b| !now.bars.contains(b)).take(3).collect();
            return fail(format!("bars-{}", k), format!("after {} (bars before: {}): bars that should not be there {:?}, bars missing {:?}", k, before.bars.len(), extra, missing));
        }
        Ok(())
    }
}

// ---- C06 ----

fn at_or_before(v: &[(i64, Rec)], t: i64) -> Option<&Rec> {
    let mut r = None;
    for (k, x) in v {
        if *k <= t {
            r = Some(x);
        }
    }
    r
}

fn probe_ticks(case: &mut Case, now: &Snap, n: usize) -> Vec<u32> {
    let mut v: Vec<i64> = vec![0, 1, u32::MAX as i64, u32::MAX as i64 - 1];
    for list in [&now.bars, &now.tempos, &now.dumpers, &now.softs] {
        if list.is_empty() {
            continue;
        }
        for _ in 0..n {
            let t = case.rng.pick(list).0;
            v.extend([t - 1, t, t + 1]);
        }
        let (f, l) = (list[0].0, list[list.len() - 1].0);
        v.extend([f - 1, f, l - 1, l, l + 1, l + 100_000]);
    }
    for _ in 0..3 {
        v.push(case.rng.range(0, 20_000));
    }
    v.retain(|t| *t >= 0 && *t <= u32::MAX as i64);
    v.sort();
    v.dedup();
    v.into_iter().map(|t| t as u32).collect()
}

pub fn check_lookups(case: &mut Case, p: &dyn Reads, now: &Snap) -> R {
    for t in probe_ticks(case, now, 2) {
        case.eval();
        let ti = t as i64;
        let want = at_or_before(&now.tempos, ti).map(|r| r[1]).unwrap_or(120);
        ensure!(p.tempo_in_force(t).as_u16() as i64 == want, "tempo_at", "tempo at {} is {}, the latest change at or before it says {}", t, p.tempo_in_force(t).as_u16(), want);
        let want = at_or_before(&now.dumpers, ti).map(|r| r[1]).unwrap_or(0);
        ensure!(p.dumper_in_force(t).as_u8() as i64 == want, "dumper_at", "damper at {} is {}, the latest change at or before it says {}", t, p.dumper_in_force(t).as_u8(), want);
        let want = at_or_before(&now.softs, ti).map(|r| r[1]).unwrap_or(0);
        ensure!(p.soft_in_force(t).as_u8() as i64 == want, "soft_at", "soft at {} is {}, the latest change at or before it says {}", t, p.soft_in_force(t).as_u8(), want);
        let mut rh = now.rhythm;
        let mut key = now.key;
        for (k, b) in &now.bars {
            if *k <= ti {
                if b[1] >= 0 {
                    rh = (b[1], b[2]);
                }
                if b[3] > -100 {
                    key = b[3];
                }
            }
        }
        ensure!(rhythm_rec(p.rhythm_in_force(t)) == rh, "rhythm_at", "rhythm at {} is {:?}, should be {:?}", t, p.rhythm_in_force(t), rh);
        ensure!(p.key_in_force(t).offset() as i64 == key, "key_at", "key at {} is {:?}, should be {}", t, p.key_in_force(t), key);
    }
    for (i, (_, b)) in p.bars().iter().enumerate() {
        if i < 4 || i + 2 >= p.bars().len() || case.rng.chance(1, 16) {
            ensure!(p.number_of(b) == Some(i), "bar_no", "bar at {} is number {:?}, should be {}", b.start_tick, p.number_of(b), i);
            let absent = Bar::new(b.start_tick.wrapping_add(1), None, None, RepeatSet::EMPTY);
            if !now.bars.iter().any(|x| x.0 == absent.start_tick as i64) {
                ensure!(p.number_of(&absent).is_none(), "bar_no-absent", "a bar that does not exist (tick {}) has the number {:?}", absent.start_tick, p.number_of(&absent));
            }
        }
    }
    case.nontrivial(now.hash64());
    Ok(())
}

// ---- C07 ----

pub fn check_locations(case: &mut Case, p: &dyn Reads, now: &Snap) -> R {
    let mut prev: Option<(u32, Location)> = None;
    for t in probe_ticks(case, now, 2) {
        case.eval();
        let loc = p.location_of(t);
        let n = now.bars.iter().filter(|b| b.0 <= t as i64).count();
        let base = if n == 0 { 0 } else { now.bars[n - 1].0 };
        ensure!(loc.bar_no() == n && loc.offset() as i64 == t as i64 - base, "tick_to_location", "tick {} is located at {}, should be {}:{}", t, loc, n, t as i64 - base);
        ensure!(p.tick_of(loc) == Ok(t), "round-trip", "tick {} -> {} -> {:?}", t, loc, p.tick_of(loc));
        if let Some((pt, pl)) = prev {
            ensure!((pl.bar_no(), pl.offset()) <= (loc.bar_no(), loc.offset()), "order", "tick {} is at {} but the later tick {} at {}", pt, pl, t, loc);
        }
        prev = Some((t, loc));
    }
    let nb = now.bars.len() as u128;
    let mut rh = now.rhythm;
    for (_, b) in &now.bars {
        if b[1] >= 0 {
            rh = (b[1], b[2]);
        }
    }
    let len = (rh.0 * 960 / rh.1) as u128;
    let r = &mut case.rng;
    let mut locs: Vec<(usize, usize)> = vec![(0, 0), (0, usize::MAX), (usize::MAX, 0), (usize::MAX, usize::MAX), (1, usize::MAX), (u32::MAX as usize, 0), (u32::MAX as usize, usize::MAX)];
    for _ in 0..6 {
        let b = match r.below(4) {
            0 => r.below(nb as u64 + 1) as usize,
            1 => nb as usize + 1 + r.usize(20),
            2 => (u32::MAX as u64 / len as u64) as usize + nb as usize - r.usize(3).min(nb as usize),
            _ => r.u64() as usize >> r.below(60),
        };
        let o = match r.below(4) {
            0 => r.usize(2000),
            1 => u32::MAX as usize - r.usize(4000),
            2 => 0,
            _ => r.u64() as usize >> r.below(60),
        };
        locs.push((b, o));
    }
    // just around the overflow of an existing bar and of the extrapolation
    if let Some(last) = now.bars.last() {
        let room = u32::MAX as u64 - last.0 as u64;
        locs.push((nb as usize, room as usize));
        locs.push((nb as usize, room as usize + 1));
        let k = room / len as u64;
        let rest = (room % len as u64) as usize;
        locs.push((nb as usize + k as usize, rest));
        locs.push((nb as usize + k as usize, rest + 1));
        locs.push((nb as usize + k as usize + 1, 0));
    } else {
        let k = u32::MAX as u64 / len as u64;
        locs.push((k as usize, (u32::MAX as u64 % len as u64) as usize));
        locs.push((k as usize, (u32::MAX as u64 % len as u64) as usize + 1));
        locs.push((k as usize + 1, 0));
    }
    // where a product or sum that lost its upper bits would look harmless
    let base = now.bars.last().map(|b| b.0 as u128).unwrap_or(0);
    for bits in [32u32, 48, 64] {
        let times = 1 + r.below(3) as u128;
        let k = ((times << bits) + len - 1) / len;
        for b in [k + nb, k + nb + r.below(4) as u128, k] {
            if b <= usize::MAX as u128 {
                locs.push((b as usize, 0));
            }
        }
        let o = (1u128 << bits) - base + r.below(3) as u128;
        if o <= usize::MAX as u128 {
            locs.push((nb as usize, o as usize));
            locs.push((nb as usize + 1 + r.usize(3), o as usize));
        }
    }
    for (b, o) in locs {
        case.eval();
        let (bn, on) = (b as u128, o as u128);
        let exact: u128 = if bn == 0 {
            on
        } else if bn <= nb {
            now.bars[b - 1].0 as u128 + on
        } else if nb == 0 {
            bn * len + on
        } else {
            now.bars[now.bars.len() - 1].0 as u128 + (bn - nb) * len + on
        };
        let want = if exact <= u32::MAX as u128 { Ok(exact as u32) } else { Err(LocationError::Overflow) };
        let got = match crate::frame::caught(|| p.tick_of(Location::new(b, o))) {
            Ok(g) => g,
            Err(e) => return fail("location_to_tick-panic", format!("location {}:{} makes the conversion fail: {} ({} bars)", b, o, e, nb)),
        };
        ensure!(got == want, "location_to_tick", "location {}:{} gives {:?}, should be {:?} ({} bars, bar length {})", b, o, got, want, nb, len);
        if exact > u32::MAX as u128 {
            case.count("overflowing_locations", 1);
        }
    }
    case.nontrivial(now.hash64());
    Ok(())
}

// ---- the checks' drivers ----

pub fn fresh_dir(case: &Case, name: &str) -> PathBuf {
    let d = case.scratch.join(name);
    let _ = std::fs::remove_dir_all(&d);
    d
}

pub fn random_cfg(r: &mut Rng, mon: Mon) -> Cfg {
    let mut c = Cfg::new(mon);
    c.ops = r.range(8, 45) as usize;
    c.limit = *r.pick(&[100, 100, 100, 1, 2, 3, 5, 8, 13]);
    c.wild = r.chance(1, 5);
    c.max_tick = *r.pick(&[960, 4000, 8000, 8000, 20_000, 40_000]);
    if r.chance(1, 60) {
        c.max_tick = 3_000_000;
        c.ops = 12;
    }
    c.max_each = *r.pick(&[2, 3, 6]);
    c.far_bars = r.chance(1, 10);
    match r.below(60) {
        0 => {
            // few edits of hundreds of items
            c.big = true;
            c.max_each = *r.pick(&[70, 130, 300]);
            c.ops = r.range(4, 10) as usize;
        }
        1 => {
            // a long session
            c.ops = r.range(150, 400) as usize;
            c.limit = *r.pick(&[100, 100, 1, 64, 300]);
        }
        _ => {}
    }
    c
}

/// Every 1500th case has more items of one kind than 16 bits can count.
fn giant_cfg(c: &mut Cfg, idx: u64) {
    if idx % 1500 == 13 {
        c.giant = Some(idx / 1500 % 6);
        c.ops = 10;
        c.limit = 100;
        c.big = false;
        c.far_bars = false;
        c.max_each = 3;
        c.max_tick = 16_000_000;
    }
}

/// Runs one session; what it did stays in the case's trace.
pub fn run_session(case: &mut Case, cfg: &Cfg, dir: PathBuf) -> Result<Session, crate::frame::Fail> {
    let ticks = Ticks::new(&mut case.rng, cfg.max_tick);
    let mut s = Session::open(dir, cfg.limit, ticks)?;
    s.mirror_reset(&s.snap());
    if cfg.mon.events {
        s.clear(&cfg.mon)?;
    }
    if let Some(kind) = cfg.giant {
        let m = gen::giant(&mut case.rng, &s.ticks, cfg.wild, &[kind]);
        case.at(|| format!("a bulk_add of {} bars, {} tempos, {} dampers, {} softs, {} notes", m.bars.len(), m.tempos.len(), m.dumpers.len(), m.softs.len(), m.notes.len()));
        case.count("sessions_with_more_than_65536_items_of_a_kind", 1);
        s.step(case, Op::Add(m, ModelChangeMetadata::new()), &cfg.mon)?;
    }
    for i in 0..cfg.ops {
        let mut op = s.gen_op(&mut case.rng, cfg);
        if let (Some(_), Op::Undo(n)) = (cfg.giant, &mut op) {
            *n = (*n).min(s.cursor.saturating_sub(1)); // what was added first stays
        }
        case.at(|| format!("{}: {:?}", i, op));
        s.step(case, op, &cfg.mon)?;
    }
    if cfg.giant.is_some() {
        let all = s.everything();
        let mut c = Changes::default();
        let d = case.rng.range(1, 40) as u32;
        c.notes = all.notes.iter().map(|n| (n.clone(), Note { base_start_tick: n.base_start_tick + d, ..n.clone() })).collect();
        c.bars = all.bars.iter().map(|x| (*x, Bar { start_tick: x.start_tick + d, ..*x })).collect();
        c.tempos = all.tempos.iter().map(|x| (*x, Tempo { start_tick: x.start_tick + d, ..*x })).collect();
        c.dumpers = all.dumpers.iter().map(|x| (*x, CtrlChg { start_tick: x.start_tick + d, ..*x })).collect();
        c.softs = all.softs.iter().map(|x| (*x, CtrlChg { start_tick: x.start_tick + d, ..*x })).collect();
        // (both take long for what is kept by tick)
        let both = cfg.giant == Some(1);
        let first = case.rng.chance(1, 2);
        let mut ops = vec![];
        if both || first {
            case.at(|| format!("everything is moved by {} and that undone", d));
            ops.extend([Op::Change(c, ModelChangeMetadata::new()), Op::Undo(1)]);
        }
        if both || !first {
            case.at(|| "everything is taken away, brought back and taken away again".to_string());
            ops.extend([Op::Remove(all, ModelChangeMetadata::new()), Op::Undo(1), Op::Redo(1)]);
        }
        for op in ops {
            s.step(case, op, &cfg.mon)?;
        }
    }
    Ok(s)
}

fn finish(case: &mut Case, mut s: Session, mon: &Mon) -> R {
    // walk the whole retained history once
    if mon.undo || mon.redo || mon.events || mon.reopen {
        case.at(|| "the whole history back, forth and back to where it was".to_string());
        s.walk_undo(case, usize::MAX, mon)?;
        s.walk_redo(case, usize::MAX, mon)?;
    }
    if mon.reopen {
        s.reopen(case, mon)?;
        s.walk_undo(case, usize::MAX, mon)?;
    }
    let dir = s.dir.clone();
    s.close()?;
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn drive(case: &mut Case, mon: Mon, tweak: impl FnOnce(&mut Cfg, &mut Rng)) -> R {
    let mut cfg = random_cfg(&mut case.rng, mon);
    let mut r = case.rng.clone();
    tweak(&mut cfg, &mut r);
    giant_cfg(&mut cfg, case.idx);
    case.at(|| format!("session: {} edits, undo limit {}, ticks up to {}", cfg.ops, cfg.limit, cfg.max_tick));
    let dir = fresh_dir(case, "p");
    let s = run_session(case, &cfg, dir)?;
    let n = s.hist.len();
    case.sample(|| serde_json::json!({"edits": cfg.ops, "undo_limit": cfg.limit, "history": n, "items_at_end": s.hist[s.cursor].items()}));
    finish(case, s, &mon)
}

pub fn c01(case: &mut Case) -> R {
    drive(case, Mon { undo: true, ..Default::default() }, |_, _| {})
}
pub fn c02(case: &mut Case) -> R {
    drive(case, Mon { redo: true, ..Default::default() }, |c, _| {
        c.w[10] = 16;
        c.w[11] = 14;
    })
}
pub fn c03(case: &mut Case) -> R {
    drive(case, Mon { reopen: true, ..Default::default() }, |c, _| {
        c.w[13] = 8;
        c.w[14] = 4;
    })
}
pub fn c05(case: &mut Case) -> R {
    drive(case, Mon { bars: true, ..Default::default() }, |c, _| {
        c.limit = 100;
        c.w[2] = 12;
    })
}
pub fn c06(case: &mut Case) -> R {
    drive(case, Mon { lookups: true, ..Default::default() }, |c, _| {
        c.w[2] = 16;
        c.w[3] = 10;
        c.w[4] = 8;
        c.w[5] = 8;
    })
}
pub fn c07(case: &mut Case) -> R {
    drive(case, Mon { locations: true, ..Default::default() }, |c, _| {
        c.w[2] = 16;
    })
}
pub fn c08(case: &mut Case) -> R {
    drive(case, Mon { events: true, ..Default::default() }, |c, _| {
        c.w[10] = 14;
        c.w[11] = 12;
        c.w[12] = 5;
    })
}
pub fn c09(case: &mut Case) -> R {
    drive(case, Mon { edits: true, ..Default::default() }, |_, _| {})
}

// ---- C04: sessions in a process that is killed ----

fn crash_plan(seed: u64, idx: u64) -> (Cfg, Rng) {
    let mut r = Rng::for_case(seed, "C04", idx);
    let mut cfg = random_cfg(&mut r, Mon::default());
    cfg.limit = 10_000; // edits beyond the limit are another matter (trimming), see the property
    cfg.ops = r.range(10, 60) as usize;
    cfg.w[12] = 0;
    cfg.w[13] = 0;
    cfg.w[14] = 0;
    (cfg, r)
}

/// Runs the planned session in `dir`, calling `f(states so far, saved?)` after every step.
///
/// An edit made while undone edits exist makes the undo store (serdo) drop those and its snapshots in
/// several separate transactions; `branch(true)` .. `branch(false)` mark that time, until it is surely
/// over, so that kills in it can be told apart (see DESIGN.md).
fn crash_session(seed: u64, idx: u64, dir: PathBuf, mut branch: impl FnMut(bool), mut f: impl FnMut(&mut Session, &mut Rng) -> R) -> Result<Session, crate::frame::Fail> {
    let (cfg, r) = crash_plan(seed, idx);
    let mut case = Case {
        idx,
        seed,
        tier: crate::frame::Tier::Quick,
        rng: r,
        obs: Default::default(),
        scratch: dir.clone(),
        verbose: false,
        trace: vec![],
    };
    let ticks = Ticks::new(&mut case.rng, cfg.max_tick);
    let mut s = Session::open(dir, cfg.limit, ticks)?;
    let mut pace = Rng::for_case(seed, "C04pace", idx);
    f(&mut s, &mut pace)?;
    for _ in 0..cfg.ops {
        let op = s.gen_op(&mut case.rng, &cfg);
        let branching = s.cursor + 1 < s.hist.len() && !matches!(op, Op::Undo(_) | Op::Redo(_));
        if branching {
            branch(true);
        }
        s.step(&mut case, op, &cfg.mon)?;
        if branching {
            s.settle_surely()?;
            branch(false);
        }
        f(&mut s, &mut pace)?;
    }
    Ok(s)
}

/// crash-child SEED CASE DIR LOG: logs "O" once the project is open, "A n" once the store reports
/// everything up to the n-th state as saved, "E" at the end; then waits to be killed.
pub fn crash_child(args: &[String]) -> i32 {
    use std::io::Write;
    crate::frame::install_panic_hook();
    crate::frame::mark_case_thread();
    let (seed, idx): (u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap());
    let dir = PathBuf::from(&args[2]);
    let mut log = std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).unwrap();
    let mut opened = false;
    let mut blog = std::fs::OpenOptions::new().append(true).open(&args[3]).unwrap();
    let r = crash_session(seed, idx, dir, |b| {
        let _ = blog.write_all(if b { b"C\n" } else { b"D\n" });
    }, |s, pace| {
        if !opened {
            opened = true;
            let _ = log.write_all(b"O\n");
            return Ok(());
        }
        match pace.below(6) {
            // report only what the store itself reports, without waiting
            0 | 1 => {}
            2 => s.settle()?,
            3 => std::thread::sleep(std::time::Duration::from_micros(pace.below(400))),
            _ => {
                for _ in 0..pace.below(400) {
                    std::hint::spin_loop();
                }
            }
        }
        let n = s.states.len();
        match s.st().saved() {
            Ok(true) if !s.saved_may_be_stale() => {
                let _ = log.write_all(format!("A {}\n", n).as_bytes());
            }
            Ok(_) => {}
            Err(e) => return fail("save-error", format!("{:?}", e)),
        }
        Ok(())
    });
    match r {
        Ok(s) => {
            let _ = log.write_all(b"E\n");
            std::mem::forget(s);
            std::thread::sleep(std::time::Duration::from_secs(60));
            0
        }
        Err(f) => {
            let _ = log.write_all(format!("F {}: {}\n", f.key, f.what).as_bytes());
            3
        }
    }
}

pub fn c04(case: &mut Case) -> R {
    use std::process::{Command, Stdio};
    let (seed, idx) = (case.seed, case.idx);
    let base = fresh_dir(case, "crash");
    let _ = std::fs::create_dir_all(&base);
    // the session on its own, for its states
    let solo = crash_session(seed, idx, base.join("solo"), |_| {}, |_, _| Ok(()))?;
    let mut allowed: Vec<u64> = vec![solo.hist[0].hash64()];
    allowed.extend(solo.states.iter());
    let mut solo = solo;
    solo.close()?;
    case.at(|| format!("a session passing through {} states; its process is killed at random moments", allowed.len()));
    let mut kr = Rng::for_case(seed, "C04kill", idx);
    let rounds = if case.quick() { 3 } else { 6 };
    for round in 0..rounds {
        let dir = base.join(format!("p{}", round));
        let log = base.join(format!("log{}", round));
        let mut child = match Command::new(std::env::current_exe().unwrap())
            .args(["crash-child", &seed.to_string(), &idx.to_string()])
            .arg(&dir)
            .arg(&log)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => panic!("cannot start the process to kill: {}", e),
        };
        let read = || std::fs::read_to_string(&log).unwrap_or_default();
        let acks = |t: &str| t.lines().filter(|l| l.starts_with("A ")).count();
        // wait for "O", then for a random number of acknowledgements, then a random moment more
        let want_acks = if kr.chance(1, 3) { 0 } else { kr.usize(40) };
        let span = if kr.chance(1, 3) { 3000 } else { 300 };
        let extra = kr.below(span);
        let t0 = std::time::Instant::now();
        loop {
            let t = read();
            if t.contains("\nF ") || t.contains("E\n") || (t.starts_with("O\n") && acks(&t) >= want_acks) {
                break;
            }
            if t0.elapsed().as_secs() > 60 || matches!(child.try_wait(), Ok(Some(_))) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        let until = std::time::Instant::now() + std::time::Duration::from_micros(extra);
        while std::time::Instant::now() < until {
            std::hint::spin_loop();
        }
        let _ = child.kill();
        let _ = child.wait();
        let t = read();
        if let Some(f) = t.lines().find(|l| l.starts_with("F ")) {
            return fail("child-failed", format!("the session itself failed before the kill: {}", f));
        }
        ensure!(t.starts_with("O\n"), "child-dead", "the editing process ended before it had opened its project");
        let last_ack: usize = t.lines().filter(|l| l.starts_with("A ") && l.len() > 2).filter_map(|l| l[2..].parse().ok()).last().unwrap_or(0);
        let ended = t.contains("E\n");
        let cuts = |x: &str| t.lines().filter(|l| *l == x).count();
        if cuts("C") != cuts("D") {
            // not decided here: the undo store was replacing an undone tail
            case.count("kills_discarded_while_dropping_undone_edits", 1);
            let _ = std::fs::remove_dir_all(&dir);
            continue;
        }
        case.count(if ended { "kills_after_the_end" } else { "kills_in_mid_session" }, 1);
        let stale = dir.join("lock").exists();
        let _ = std::fs::remove_file(dir.join("lock"));
        case.count("stale_locks", stale as u64);
        case.eval();
        let store = match open_store(&dir, 10_000) {
            Ok(s) => s,
            Err(e) => return fail("crash-open", format!("after the kill (last acknowledgement: state {}) the project cannot be opened: {}", last_ack, e)),
        };
        let store = ManuallyDrop::new(store);
        let now = Snap::of(store.model());
        let h = now.hash64();
        let found = (last_ack..allowed.len()).rev().find(|i| allowed[*i] == h);
        match found {
            Some(i) => {
                case.count("states_behind_the_session_end", (allowed.len() - 1 - i) as u64);
                case.nontrivial(h ^ ((last_ack as u64) << 32));
                case.sample(|| serde_json::json!({"states of the session": allowed.len(), "last state reported as saved": last_ack, "state found after the kill": i, "items": now.items()}));
            }
            None => {
                let older = allowed.iter().position(|x| *x == h);
                return fail(
                    if older.is_some() { "crash-lost" } else { "crash-foreign" },
                    format!("killed after state {} of {} had been reported as saved; the reopened project shows {}: {} items", last_ack, allowed.len() - 1,
                        match older { Some(i) => format!("the older state {}", i), None => "a state the session never passed through".into() }, now.items()),
                );
            }
        }
        // the rescued project can be worked with: undo and redo to the state found, an edit, an orderly close, reopening
        let mut s = Session {
            store: Some(store), dir: dir.clone(), limit: 10_000, hist: vec![Rc::new(now.clone())], asked: vec![None], cursor: 0, floor: 0, dirty: false, high: 0, unsynced: false,
            mirror: Mirror::default(), ticks: Ticks::new(&mut kr, 8000), states: vec![], copies: 0,
        };
        let mut back = 0;
        while back < 5 && s.store.as_ref().unwrap().can_undo() {
            s.st().undo();
            back += 1;
            let h = s.snap().hash64();
            ensure!(allowed.contains(&h), "crash-undo", "undo in the rescued project shows a state the session never passed through");
        }
        while back > 0 {
            ensure!(s.store.as_ref().unwrap().can_redo(), "crash-redo", "redo is not offered after undo in the rescued project");
            s.st().redo();
            back -= 1;
        }
        ensure!(s.snap() == now, "crash-redo-state", "undo and redo in the rescued project do not lead back: {}", s.snap().diff(&now, "now", "when opened"));
        let mut cfg = Cfg::new(Mon::default());
        cfg.w[12] = 0;
        cfg.w[13] = 0;
        cfg.w[14] = 0;
        case.rng = kr.clone();
        for _ in 0..2 {
            let op = s.gen_op(&mut kr, &cfg);
            s.step(case, op, &cfg.mon)?;
        }
        s.reopen(case, &Mon { reopen: true, ..Default::default() }).or_else(|f| if f.key.starts_with("can_") { Ok(()) } else { Err(f) })?;
        s.close()?;
        let _ = std::fs::remove_dir_all(&dir);
    }
    let _ = std::fs::remove_dir_all(&base);
    Ok(())
}

// ---- C27: several sessions at once ----

struct Party {
    cfg: Cfg,
    rng: Rng,
}

fn party_run(p: &Party, idx: u64, seed: u64, dir: PathBuf, delays: Option<Rng>) -> Result<(Vec<u64>, u64), crate::frame::Fail> {
    let mut case = Case {
        idx,
        seed,
        tier: crate::frame::Tier::Quick,
        rng: p.rng.clone(),
        obs: Default::default(),
        scratch: dir.clone(),
        verbose: false,
        trace: vec![],
    };
    let mut delays = delays;
    let ticks = Ticks::new(&mut case.rng, p.cfg.max_tick);
    let mut s = Session::open(dir, p.cfg.limit, ticks)?;
    for _ in 0..p.cfg.ops {
        let op = s.gen_op(&mut case.rng, &p.cfg);
        s.step(&mut case, op, &p.cfg.mon)?;
        if let Some(d) = delays.as_mut() {
            match d.below(6) {
                0 => std::thread::sleep(std::time::Duration::from_micros(d.below(300))),
                1 => std::thread::yield_now(),
                2 => {
                    for _ in 0..d.below(3000) {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
        }
    }
    let last = s.snap();
    s.close()?;
    let store = match open_store(&s.dir, p.cfg.limit) {
        Ok(s) => s,
        Err(e) => return fail("reopen", format!("the project cannot be reopened: {}", e)),
    };
    let again = Snap::of(store.model());
    ensure!(again == last, "reopen-state", "reopened content differs: {}", again.diff(&last, "now", "when closed"));
    let dir = s.dir.clone();
    drop(store);
    let _ = std::fs::remove_dir_all(&dir);
    let n = s.states.len() as u64;
    let mut st = s.states;
    st.push(last.hash64());
    Ok((st, n))
}

pub fn c27(case: &mut Case) -> R {
    let base = fresh_dir(case, "many");
    let _ = std::fs::create_dir_all(&base);
    let n = case.rng.range(2, 5) as usize;
    let same = case.rng.chance(1, 4);
    let mut parties: Vec<Party> = vec![];
    for i in 0..n {
        let mut cfg = random_cfg(&mut case.rng, Mon { undo: true, redo: true, bars: true, lookups: true, edits: true, events: false, locations: true, reopen: false });
        cfg.ops = case.rng.range(8, 30) as usize;
        if std::env::var_os("KVMON_SANITIZED").is_some() {
            // thousands of items make the schedules no richer, but every access is watched
            cfg.big = false;
            cfg.max_each = cfg.max_each.min(6);
            cfg.max_tick = cfg.max_tick.min(20_000);
        }
        let rng = Rng::for_case(case.seed, "C27party", case.idx * 16 + if same { 0 } else { i as u64 });
        if same && i > 0 {
            cfg = parties[0].cfg.clone();
        }
        parties.push(Party { cfg, rng });
    }
    case.at(|| format!("{} sessions at once, {}", n, if same { "all making the same edits" } else { "each its own" }));
    let mut solo = vec![];
    for (i, p) in parties.iter().enumerate() {
        solo.push(party_run(p, case.idx, case.seed, base.join(format!("solo{}", i)), None)?);
    }
    let rounds = if case.quick() { 2 } else { 4 };
    for round in 0..rounds {
        let barrier = std::sync::Barrier::new(n);
        let results: Vec<Result<Result<(Vec<u64>, u64), crate::frame::Fail>, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = parties
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let dir = base.join(format!("r{}p{}", round, i));
                    let d = Rng::for_case(case.seed, "C27delay", case.idx * 1000 + round * 16 + i as u64);
                    let (idx, seed, barrier) = (case.idx, case.seed, &barrier);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            crate::frame::mark_case_thread();
                            barrier.wait();
                            crate::frame::caught(|| party_run(p, idx, seed, dir, Some(d)))
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, r) in results.into_iter().enumerate() {
            case.eval();
            match r {
                Err(p) => return fail(format!("panic: {}", p), format!("session {} of {} panicked only when run together with others: {}", i, n, p)),
                Ok(Err(f)) => return fail(format!("together-{}", f.key), format!("session {} of {}, fine alone, run with the others: {}", i, n, f.what)),
                Ok(Ok((states, steps))) => {
                    case.count("concurrent_steps", steps);
                    if states != solo[i].0 {
                        let k = states.iter().zip(solo[i].0.iter()).position(|(a, b)| a != b).unwrap_or(states.len().min(solo[i].0.len()));
                        return fail("interference", format!("session {} of {}: its state after step {} differs from the same session run alone ({} steps together, {} alone)", i, n, k, states.len(), solo[i].0.len()));
                    }
                    case.nontrivial(*states.last().unwrap() ^ round.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i as u64);
                }
            }
        }
        case.count("concurrent_rounds", 1);
        case.sample(|| serde_json::json!({"sessions at once": n, "all the same": same, "states passed through": solo.iter().map(|s| s.0.len()).collect::<Vec<_>>()}));
    }
    let _ = std::fs::remove_dir_all(&base);
    Ok(())
}

pub fn defs() -> Vec<crate::frame::CheckDef> {
    use crate::frame::CheckDef;
    const STORE: &str = "the serdo store, SQLite and klavier-helper's Store/BagStore work as documented (they run for real; a fault of theirs that shows is reported)";
    const SESS: &str = "a case is one random editing session on a real SQLite-backed store (8-45 steps, ticks colliding often, duplicates and absent items in arguments, undo limits 1-100); ";
    let rule = |s: &str| -> &'static str { Box::leak(format!("{}{}", SESS, s).into_boxed_str()) };
    let d = |id, rule: &'static str, quick, run| CheckDef { id, rule, assumptions: &[STORE], quick, thorough_s: Some(420), finite: None, threads: 8, run };
    vec![
        d("C01", rule("every undo is compared with the content recorded before the edit and every offer of undo with the retained edits, and the whole history is walked at the end; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 14000, c01 as fn(&mut Case) -> R),
        d("C02", rule("every redo (and undo) is compared with the content recorded at that position and every offer of redo with the undone edits; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 14000, c02),
        d("C03", rule("the session is closed and reopened, and copied with save-as, at random steps and at the end; content, offers and the retained history are compared with what the live session showed; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 8000, c03),
        CheckDef {
            id: "C04",
            rule: "a case is a random editing session run in a child process that is killed with SIGKILL at random moments (before any and after each kind of acknowledgement); the project is reopened and its content looked up among the states of the same session run undisturbed, from the last acknowledged one on; then undone, redone, edited, closed and reopened. evaluations: kills and steps in the rescued projects; non-trivial: distinct (state found, acknowledgement) pairs",
            assumptions: &[STORE, "a kill loses no data already handed to the operating system (power loss is not simulated)"],
            quick: 1800, thorough_s: Some(420), finite: None, threads: 8, run: c04,
        },
        d("C05", rule("after every edit the bars are compared with those that an independent computation says must have been created; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 18000, c05),
        d("C06", rule("after every step the look-ups at ticks on and around every change, zero and the maximum are compared with a linear scan of the listed content; non-trivial: distinct contents looked up"), 12000, c06),
        d("C07", rule("after every step ticks and locations (around bars, overflow limits, machine word maximum) are converted and compared with exact wide arithmetic; non-trivial: distinct contents looked up"), 12000, c07),
        d("C08", rule("after every step the new notifications are replayed onto a mirror of the content, which must equal the project, and their selection requests compared with the edit's; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 14000, c08),
        d("C09", rule("the content after every edit is compared with an independently written reference of what the edit asked for; non-trivial: an edit that changed the content (distinct by resulting content and edit kind)"), 18000, c09),
        CheckDef {
            id: "C27",
            rule: "a case is 2-5 random editing sessions, run alone and then at the same time from as many threads with random delays (each with its saver thread); the state after every step, the final and the reopened states must be those of the solo run. evaluations: concurrent sessions; non-trivial: distinct (final state, round, session)",
            assumptions: &[STORE],
            quick: 400, thorough_s: Some(420), finite: None, threads: 2, run: c27,
        },
    ]
}
