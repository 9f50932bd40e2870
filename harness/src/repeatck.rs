//! C10-C13: repeats - the playing order, rendering robustness, played time and mark combinations.

use crate::frame::{caught, fail, Case, CheckDef, R};
use crate::gen::{self, REPEATS};
use crate::rng::{hash_bytes, Rng};
use crate::ensure;
use enumset::EnumSet;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::play_iter::PlayIter;
use klavier_core::play_start_tick::{PlayStartTick, ToAccumTickError};
use gcollections::ops::Bounded;
use klavier_core::repeat::{render_region, Chunk, Region};
use klavier_core::rhythm::Rhythm;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Span = (u32, u32);

/// The order in which ticks are played, without regard to how it is cut into ranges.
fn order(spans: &[Span]) -> Vec<Span> {
    let mut out: Vec<Span> = vec![];
    for &(s, e) in spans {
        if s >= e {
            continue;
        }
        match out.last_mut() {
            Some(l) if l.1 == s => l.1 = e,
            _ => out.push((s, e)),
        }
    }
    out
}

fn spans(chunks: &[Chunk]) -> Vec<Span> {
    chunks.iter().map(|c| (c.start_tick(), c.end_tick())).collect()
}

fn mark_set(marks: &BTreeSet<u8>) -> Option<RepeatSet> {
    // Whatever the order in which a user adds them, as long as the library lets one order pass.
    fn go(s: RepeatSet, rest: &[u8]) -> Option<RepeatSet> {
        if rest.is_empty() {
            return Some(s);
        }
        for i in 0..rest.len() {
            if let Ok(n) = s.try_add(REPEATS[rest[i] as usize]) {
                let mut r = rest.to_vec();
                r.remove(i);
                if let Some(f) = go(n, &r) {
                    return Some(f);
                }
            }
        }
        None
    }
    go(RepeatSet::EMPTY, &marks.iter().copied().collect::<Vec<_>>())
}

fn code(r: Repeat) -> u8 {
    REPEATS.iter().position(|x| *x == r).unwrap() as u8
}

#[derive(Debug, Clone)]
enum Seg {
    Plain { from: u32, to: u32 },
    Twice { from: u32, to: u32 },
    /// starts of the endings; the region ends at `to`
    Endings { from: u32, starts: Vec<u32>, to: u32 },
}

#[derive(Debug, Clone)]
struct Tune {
    rhythm: Rhythm,
    bars: Vec<Bar>,
    segs: Vec<Seg>,
    jump: Option<(u32, bool)>, // tick of D.C. (false) or D.S. (true)
    segno: Option<u32>,
    fine: Option<u32>,
    codas: Option<(u32, u32)>,
    top_len: u32,
    mid_rhythm: bool,
}

struct Pen<'a> {
    rng: &'a mut Rng,
    t: u32,
    ticks: Vec<u32>,
    marks: BTreeMap<u32, BTreeSet<u8>>,
    full: u32,
    upbeat: Option<u32>,
    scale: u32,
    kind: u8,
}

impl<'a> Pen<'a> {
    fn mark(&mut self, t: u32, r: Repeat) {
        self.marks.entry(t).or_default().insert(code(r));
    }
    /// One more bar line.
    fn bar(&mut self) {
        let len = if self.t == 0 {
            if let Some(u) = self.upbeat { u } else { self.full }
        } else {
            match self.kind {
                0 => self.full,
                1 => {
                    let u = self.upbeat.unwrap_or(0);
                    if self.rng.chance(1, 4) { self.full - u.min(self.full - 1) } else { self.full }
                }
                _ => match self.rng.below(5) {
                    0 => self.full,
                    1 => 1,
                    2 => self.rng.range(1, 4) as u32,
                    _ => self.rng.range(1, self.scale as i64) as u32,
                },
            }
        };
        self.t += len.max(1);
        self.ticks.push(self.t);
    }
}

fn tune(rng: &mut Rng, giant: bool) -> Tune {
    let tune_rhythm = gen::rhythm(rng);
    let bar0_rhythm = if rng.chance(1, 3) { Some(gen::rhythm(rng)) } else { None };
    let top = bar0_rhythm.unwrap_or(tune_rhythm);
    let full = top.tick_len();
    let upbeat = match rng.below(4) {
        0 | 1 => None,
        2 => Some(rng.range(1, full as i64) as u32),
        _ => Some((full / 4).max(1)),
    };
    let kind = rng.below(3) as u8;
    let mut scale = *rng.pick(&[3u32, 100, 2000, 100_000]);
    // a few long tunes, and a few that reach far into the tick range
    let long = rng.chance(1, 60);
    if !long && rng.chance(1, 20) {
        scale = 20_000_000;
    }
    if giant {
        scale = 2000;
    }
    let most = if giant { 12 } else if long && rng.chance(1, 2) { 60 } else { 4 };
    let mut p = Pen { rng, t: 0, ticks: vec![], marks: BTreeMap::new(), full, upbeat, scale, kind };
    let mut segs: Vec<Seg> = vec![];
    let n = if giant { 10_000 } else { 1 + p.rng.below(if long { 70 } else { 6 }) };
    let start_at_zero_marked = p.rng.chance(1, 4);
    for i in 0..n {
        let from = p.t;
        let k = p.rng.below(3);
        // Inside a tune every repeat needs its start mark; at the top it may be left out.
        let needs_start = i > 0 || start_at_zero_marked;
        match k {
            0 => {
                for _ in 0..p.rng.range(1, most) {
                    p.bar();
                }
                segs.push(Seg::Plain { from, to: p.t });
                continue;
            }
            1 => {
                for _ in 0..p.rng.range(1, most) {
                    p.bar();
                }
                let to = p.t;
                if needs_start {
                    p.mark(from, Repeat::Start);
                }
                p.mark(to, Repeat::End);
                segs.push(Seg::Twice { from, to });
            }
            _ => {
                for _ in 0..p.rng.range(1, most) {
                    p.bar();
                }
                if needs_start {
                    p.mark(from, Repeat::Start);
                }
                let mut starts = vec![];
                for e in 0..p.rng.range(2, 4) {
                    starts.push(p.t);
                    for _ in 0..p.rng.range(1, 3) {
                        let at = p.t;
                        p.mark(at, [Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4][e as usize]);
                        p.bar();
                    }
                }
                segs.push(Seg::Endings { from, starts, to: p.t });
            }
        }
    }
    // A plain first region followed by an unmarked start would make the repeat reach back to the top;
    // the generator always marks those starts.
    let tail_from = p.t;
    for _ in 0..p.rng.below(4) {
        p.bar();
    }
    if p.ticks.is_empty() {
        p.bar();
    }
    segs.push(Seg::Plain { from: tail_from, to: u32::MAX });

    let Pen { rng, ticks, mut marks, .. } = p;
    let mut all: Vec<u32> = vec![0];
    all.extend(&ticks);
    let inside = |t: u32| segs.iter().any(|s| match s {
        Seg::Plain { .. } => false,
        Seg::Twice { from, to } | Seg::Endings { from, to, .. } => *from < t && t < *to,
    });
    // (start of the first ending, start of the last]: not reached by the last pass
    let skipped = |t: u32| segs.iter().any(|s| match s {
        Seg::Endings { starts, .. } => starts[0] < t && t <= *starts.last().unwrap(),
        _ => false,
    });
    // a Segno may stand in the last ending, but not in an earlier one
    let in_early_ending = |t: u32| segs.iter().any(|s| match s {
        Seg::Endings { starts, .. } => starts[0] <= t && t < *starts.last().unwrap(),
        _ => false,
    });
    let has = |marks: &BTreeMap<u32, BTreeSet<u8>>, t: u32, r: Repeat| marks.get(&t).map(|s| s.contains(&code(r))).unwrap_or(false);
    let mut jump = None;
    let mut segno = None;
    let mut fine = None;
    let mut codas = None;
    if rng.chance(4, 5) {
        let places: Vec<u32> = ticks.iter().copied().filter(|t| !inside(*t) && !has(&marks, *t, Repeat::Start)).collect();
        if !places.is_empty() {
            let at = if rng.chance(1, 2) { *places.last().unwrap() } else { *rng.pick(&places) };
            let ds = rng.chance(1, 2);
            let mut start = 0;
            let mut ok = true;
            // D.C. with a Segno goes back to the Segno (and is warned of)
            let to_segno = ds || rng.chance(1, 8);
            if to_segno {
                let c: Vec<u32> = all.iter().copied().filter(|t| *t < at && !in_early_ending(*t)).collect();
                if c.is_empty() {
                    ok = false;
                } else {
                    let s = *rng.pick(&c);
                    segno = Some(s);
                    start = s;
                    marks.entry(s).or_default().insert(code(Repeat::Segno));
                }
            } else {
                start = all.get(1).copied().unwrap_or(0);
            }
            if ok {
                jump = Some((at, ds));
                marks.entry(at).or_default().insert(code(if ds { Repeat::Ds } else { Repeat::Dc }));
                let free: Vec<u32> = all.iter().copied().filter(|t| !skipped(*t) && *t > start).collect();
                // "to Coda" may stand on the very bar the second pass starts at; codas that the
                // second pass starts behind are never met by it
                let behind = to_segno && rng.chance(1, 5);
                let coda_from: Vec<u32> = if behind {
                    all.iter().copied().filter(|t| !skipped(*t) && *t <= start).collect()
                } else {
                    all.iter().copied().filter(|t| !skipped(*t) && *t >= start && (to_segno || *t > 0)).collect()
                };
                if rng.chance(1, 2) && coda_from.len() >= 2 {
                    let a = rng.usize(coda_from.len() - 1);
                    let b = a + 1 + rng.usize(coda_from.len() - 1 - a);
                    codas = Some((coda_from[a], coda_from[b]));
                    marks.entry(coda_from[a]).or_default().insert(code(Repeat::Coda));
                    marks.entry(coda_from[b]).or_default().insert(code(Repeat::Coda));
                } else if !ds && rng.chance(1, 6) {
                    // a single coda means nothing to D.C. (and is warned of)
                    let t = *rng.pick(&all);
                    marks.entry(t).or_default().insert(code(Repeat::Coda));
                }
                if rng.chance(2, 3) {
                    let f: Vec<u32> = free.iter().copied().filter(|t| codas.map(|c| c.1 <= *t).unwrap_or(true)).collect();
                    if !f.is_empty() {
                        let t = *rng.pick(&f);
                        fine = Some(t);
                        marks.entry(t).or_default().insert(code(Repeat::Fine));
                    }
                }
            }
        }
    } else if rng.chance(1, 4) {
        // without D.C. and D.S. these marks mean nothing
        for r in [Repeat::Fine, Repeat::Segno, Repeat::Coda, Repeat::Coda] {
            let t = *rng.pick(&all);
            if rng.chance(1, 2) && !(r == Repeat::Segno && in_early_ending(t)) {
                marks.entry(t).or_default().insert(code(r));
            }
        }
    }
    let mut bars = vec![];
    let mut mid_rhythm = false;
    for t in &all {
        let set = marks.get(t).cloned().unwrap_or_default();
        if *t == 0 && set.is_empty() && bar0_rhythm.is_none() && rng.chance(1, 2) {
            continue;
        }
        let rs = mark_set(&set).unwrap_or_else(|| panic!("generator: the marks {:?} cannot be combined", set.iter().map(|c| REPEATS[*c as usize]).collect::<Vec<_>>()));
        let rh = if *t == 0 {
            bar0_rhythm
        } else if rng.chance(1, 10) {
            mid_rhythm = true;
            Some(gen::rhythm(rng))
        } else {
            None
        };
        bars.push(Bar::new(*t, rh, if rng.chance(1, 8) { Some(gen::key(rng)) } else { None }, rs));
    }
    Tune { rhythm: tune_rhythm, bars, segs, jump, segno, fine, codas, top_len: full, mid_rhythm }
}

/// The documented playing order, walked mark by mark.
fn play(t: &Tune, second_pass_from: u32) -> Vec<Span> {
    let (mut first, second) = passes(t, second_pass_from);
    first.extend(second);
    first
}

/// What is played up to the D.C. or D.S., and what from there on.
fn passes(t: &Tune, second_pass_from: u32) -> (Vec<Span>, Vec<Span>) {
    let mut out: Vec<Span> = vec![];
    let stop = t.jump.map(|j| j.0).unwrap_or(u32::MAX);
    for s in &t.segs {
        match s {
            Seg::Plain { from, to } => {
                if *from < stop {
                    out.push((*from, (*to).min(stop)));
                }
            }
            Seg::Twice { from, to } => {
                if *from < stop {
                    out.push((*from, *to));
                    out.push((*from, *to));
                }
            }
            Seg::Endings { from, starts, to } => {
                if *from < stop {
                    for (i, s) in starts.iter().enumerate() {
                        out.push((*from, starts[0]));
                        out.push((*s, starts.get(i + 1).copied().unwrap_or(*to)));
                    }
                }
            }
        }
    }
    let first = out;
    let mut out = vec![];
    if t.jump.is_none() {
        return (first, out);
    }
    let mut lines: Vec<u32> = vec![0];
    lines.extend(t.bars.iter().map(|b| b.start_tick).filter(|t| *t != 0));
    for (i, &a) in lines.iter().enumerate() {
        let b = lines.get(i + 1).copied().unwrap_or(u32::MAX);
        if a < second_pass_from {
            continue;
        }
        if t.fine == Some(a) {
            break;
        }
        if t.codas.map(|(f, to)| f <= a && a < to).unwrap_or(false) {
            continue;
        }
        let early_ending = t.segs.iter().any(|s| match s {
            Seg::Endings { starts, .. } => starts[0] <= a && a < *starts.last().unwrap(),
            _ => false,
        });
        if !early_ending {
            out.push((a, b));
        }
    }
    (first, out)
}

fn second_pass_starts(t: &Tune) -> Vec<u32> {
    match t.jump {
        None => vec![0],
        Some(_) if t.segno.is_some() => vec![t.segno.unwrap()],
        Some((_, true)) => unreachable!(),
        Some((at, false)) => {
            let first = t.bars.iter().map(|b| b.start_tick).find(|t| *t != 0).unwrap();
            let prev = t.bars.iter().map(|b| b.start_tick).filter(|t| *t < at).max().unwrap_or(0);
            let len = at - prev;
            if first >= t.top_len {
                vec![0]
            } else if t.mid_rhythm {
                vec![0, first]
            } else if len == t.top_len {
                vec![first]
            } else if len + first == t.top_len {
                vec![0]
            } else {
                vec![0, first]
            }
        }
    }
}

fn show(bars: &[Bar]) -> String {
    bars.iter()
        .map(|b| {
            let m: Vec<String> = REPEATS.iter().filter(|r| b.repeats.contains(**r)).map(|r| r.to_string()).collect();
            format!("{}{}{}", b.start_tick, b.rhythm.map(|r| format!(" {}/{}", r.numerator().value(), r.denominator().value())).unwrap_or_default(), if m.is_empty() { String::new() } else { format!("[{}]", m.join(" ")) })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn c10(case: &mut Case) -> R {
    let giant = case.idx % 60_000 == 13;
    for _ in 0..if giant { 1 } else { 40 } {
        let t = tune(&mut case.rng, giant);
        if giant {
            case.count("tunes of more than 65536 bars", (t.bars.len() > 65536) as u64);
        }
        case.at(|| format!("tune {}/{}: {} ({:?})", t.rhythm.numerator().value(), t.rhythm.denominator().value(), show(&t.bars), t));
        let got = match render_region(t.rhythm, t.bars.iter()) {
            Ok((region, _)) => spans(&region.to_chunks()),
            Err(e) => {
                return fail("rejected", format!("a tune that follows the documented structure is rejected with {:?}: {}", e.current_context(), show(&t.bars)));
            }
        };
        let got = order(&got);
        let mut wants = vec![];
        let starts = second_pass_starts(&t);
        for s in &starts {
            let w = order(&play(&t, *s));
            if !wants.contains(&w) {
                wants.push(w);
            }
        }
        case.eval();
        case.count("tunes", 1);
        if t.jump.is_some() {
            case.count("tunes with a second pass", 1);
        }
        if t.jump.map(|j| !j.1).unwrap_or(false) && starts.len() == 1 {
            case.count(if starts[0] == 0 { "D.C. back to the top" } else { "D.C. back to the second bar" }, 1);
        }
        if t.codas.is_some() {
            case.count("tunes with codas", 1);
        }
        ensure!(
            wants.contains(&got), "order",
            "the playing order of rhythm {}/{} bars {} is {:?}; documented {:?}",
            t.rhythm.numerator().value(), t.rhythm.denominator().value(), show(&t.bars), got, wants
        );
        if got.len() > 1 {
            case.nontrivial(hash_bytes(format!("{:?}", got).as_bytes()));
        }
        case.sample(|| json!({"bars": show(&t.bars), "order": format!("{:?}", got)}));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C11

fn any_set(r: &mut Rng) -> RepeatSet {
    let bits = match r.below(4) {
        0 => 1u32 << r.below(11),
        1 => (1 << r.below(11)) | (1 << r.below(11)),
        _ => r.below(2048) as u32,
    };
    serde_json::from_value(json!({ "value": bits })).unwrap()
}

fn legal_set(r: &mut Rng) -> RepeatSet {
    let mut s = RepeatSet::EMPTY;
    for _ in 0..r.below(4) {
        if let Ok(n) = s.try_add(*r.pick(&REPEATS)) {
            s = n;
        }
    }
    s
}

/// A contradiction that has to be refused, if the marks have one.
fn contradiction(bars: &[Bar]) -> Option<&'static str> {
    let at = |r: Repeat| bars.iter().filter(|b| b.repeats.contains(r)).map(|b| b.start_tick).collect::<Vec<_>>();
    let (dc, ds, fine, segno, coda) = (at(Repeat::Dc), at(Repeat::Ds), at(Repeat::Fine), at(Repeat::Segno), at(Repeat::Coda));
    if dc.len() + ds.len() > 1 {
        return Some("a second D.C. or D.S.");
    }
    if fine.len() > 1 {
        return Some("a second Fine");
    }
    if segno.len() > 1 {
        return Some("a second Segno");
    }
    if coda.len() > 2 {
        return Some("more than two codas");
    }
    if !ds.is_empty() && segno.is_empty() {
        return Some("D.S. without Segno");
    }
    let jump = dc.first().or(ds.first()).copied();
    if let (Some(_), Some(f), [_, to]) = (jump, fine.first(), &coda[..]) {
        if f < to {
            return Some("Fine before the second coda");
        }
    }
    // Where we are: before any region mark, in plain bars, in a repeat, in ending n
    #[derive(Clone, Copy, PartialEq)]
    enum W {
        Top,
        Plain,
        Repeat,
        Ending(u8),
    }
    let mut w = W::Top;
    // where the first and the latest ending of the current region start
    let mut endings = (0, 0);
    for b in bars {
        let before = w;
        let has = |r| b.repeats.contains(r);
        let (s, e) = (has(Repeat::Start), has(Repeat::End));
        let ending = b.repeats.region_index().map(|v| v.value());
        let jump_here = has(Repeat::Dc) || has(Repeat::Ds);
        match w {
            W::Top => {
                if e {
                    if jump.map(|j| 0 < j && j < b.start_tick).unwrap_or(false) {
                        return Some("D.C. or D.S. inside a repeat");
                    }
                    w = if s { W::Repeat } else { W::Plain };
                } else if s {
                    w = W::Repeat;
                } else if let Some(n) = ending {
                    if n != 1 {
                        return Some("endings out of order");
                    }
                    if jump.map(|j| 0 < j && j <= b.start_tick).unwrap_or(false) {
                        return Some("D.C. or D.S. inside a repeat");
                    }
                    w = W::Ending(1);
                }
            }
            W::Plain => {
                if e {
                    return Some("repeat end without a start");
                }
                if s {
                    w = W::Repeat;
                }
            }
            W::Repeat => {
                if e {
                    w = if s { W::Repeat } else { W::Plain };
                } else if s {
                    return Some("repeat start inside a repeat");
                } else if jump_here {
                    return Some("D.C. or D.S. inside a repeat");
                } else if let Some(n) = ending {
                    if n != 1 {
                        return Some("endings out of order");
                    }
                    w = W::Ending(1);
                }
            }
            W::Ending(cur) => {
                if e {
                    return Some("repeat end inside an ending");
                } else if let Some(n) = ending {
                    if n != cur && n != cur + 1 {
                        return Some("endings out of order");
                    }
                    w = W::Ending(n);
                } else {
                    if segno.iter().any(|t| endings.0 <= *t && *t < endings.1) {
                        return Some("a Segno in an ending before the last");
                    }
                    w = if s { W::Repeat } else { W::Plain };
                }
            }
        }
        if before != w {
            match w {
                W::Ending(1) => endings = (b.start_tick, b.start_tick),
                W::Ending(_) => endings.1 = b.start_tick,
                _ => {}
            }
        }
    }
    match w {
        W::Repeat => Some("unclosed repeat"),
        W::Ending(_) => Some("unclosed ending"),
        _ => None,
    }
}

fn judge_any(case: &mut Case, rhythm: Rhythm, bars: &[Bar], legal: bool) -> R {
    case.at(|| format!("{} bars {}", if legal { "legal" } else { "any" }, show(bars)));
    case.eval();
    let must = if legal { contradiction(bars) } else { None };
    let r = match caught(|| render_region(rhythm, bars.iter()).map(|(r, _)| r.to_chunks())) {
        Ok(r) => r,
        Err(p) => return fail(format!("crash {}", p.split(" at ").next().unwrap_or("")), format!("rendering the bars {} crashed: {}", show(bars), p)),
    };
    match r {
        Err(e) => {
            case.count("rejected", 1);
            // Reporting the error is part of ending in one.
            if let Err(p) = caught(|| format!("{} {:?}", e.current_context(), e.current_context())) {
                return fail("crash showing the error", format!("showing the error of {} crashed: {}", show(bars), p));
            }
            case.nontrivial(hash_bytes(format!("{:?}", e.current_context()).split(' ').next().unwrap_or("").as_bytes()) ^ bars.len() as u64);
        }
        Ok(chunks) => {
            case.count("rendered", 1);
            ensure!(must.is_none(), format!("accepted {}", must.unwrap()), "bars with {} are rendered: {}", must.unwrap(), show(bars));
            let mut reached = 0u32;
            let mut in_order = true;
            for c in &chunks {
                ensure!(c.start_tick() <= c.end_tick(), "backwards", "a range of the bars {} runs backwards: {:?}", show(bars), c);
                for t in [c.start_tick(), c.end_tick()] {
                    ensure!(t == 0 || t == u32::MAX || bars.iter().any(|b| b.start_tick == t), "position", "a range of the bars {} begins or ends where there is no bar: {:?}", show(bars), c);
                }
                if c.start_tick() > reached {
                    in_order = false;
                }
                reached = reached.max(c.end_tick());
            }
            let jump = bars.iter().any(|b| b.repeats.contains(Repeat::Dc) || b.repeats.contains(Repeat::Ds));
            if !jump {
                ensure!(in_order && reached == u32::MAX, "not played", "without D.C. or D.S. the whole tune must be played in order; bars {}: {:?}", show(bars), chunks);
            }
            case.nontrivial(hash_bytes(format!("{:?}", chunks).as_bytes()));
        }
    }
    Ok(())
}

/// Bar lists of all sorts; true: every single mark set is one that can be built.
fn any_bars(r: &mut Rng, idx: u64, k: u64) -> (Vec<Bar>, bool) {
    let mut bars = vec![];
    let legal;
    match k % 4 {
        0 => {
            // every set on one bar, together with any set on a second one
            legal = false;
            let bits = (idx * 15 + k / 4) % 2048;
            let s: RepeatSet = serde_json::from_value(json!({ "value": bits })).unwrap();
            let t = *r.pick(&[0u32, 0, 1, 960, 4_000_000_000]);
            bars.push(Bar::new(t, None, None, s));
            if r.chance(3, 4) {
                bars.push(Bar::new(t + r.range(1, 2000) as u32, None, None, any_set(r)));
            }
        }
        1 => {
            // a good tune with one thing wrong
            legal = true;
            let t = tune(r, false);
            bars = t.bars.clone();
            let i = r.usize(bars.len());
            match r.below(4) {
                0 => {
                    bars.remove(i);
                }
                1 => {
                    let m = *r.pick(&REPEATS);
                    if let Ok(s) = bars[i].repeats.try_add(m) {
                        bars[i].repeats = s;
                    }
                }
                2 => {
                    let m = *r.pick(&REPEATS);
                    bars[i].repeats = bars[i].repeats.remove(m);
                }
                _ => {
                    let j = r.usize(bars.len());
                    let s = bars[i].repeats;
                    bars[i].repeats = bars[j].repeats;
                    bars[j].repeats = s;
                }
            }
        }
        x => {
            legal = x == 2;
            let mut t = if r.chance(1, 2) { 0u32 } else { r.range(1, 500) as u32 };
            for _ in 0..r.below(9) {
                let s = if legal { legal_set(r) } else { any_set(r) };
                bars.push(Bar::new(t, if r.chance(1, 6) { Some(gen::rhythm(r)) } else { None }, None, s));
                t += if r.chance(1, 3) { 240 } else { r.range(1, 1000) as u32 };
            }
            if r.chance(1, 12) {
                let d = u32::MAX - t;
                for b in bars.iter_mut() {
                    b.start_tick += d;
                }
            }
        }
    }
    (bars, legal)
}

/// Few marks, all placements: three bars with one mark each (or none).
fn few_marks(idx: u64) -> Vec<Vec<Bar>> {
    let n = 12u64 * 12 * 12;
    let mut all = vec![];
    for j in 0..4 {
        let x = (idx * 4 + j) % n;
        let one = |d: u64| -> RepeatSet {
            if d == 11 { RepeatSet::EMPTY } else { RepeatSet::EMPTY.try_add(REPEATS[d as usize]).unwrap() }
        };
        for first in [0u32, 240] {
            all.push(vec![
                Bar::new(first, None, None, one(x % 12)),
                Bar::new(960, None, None, one(x / 12 % 12)),
                Bar::new(1920, None, None, one(x / 144)),
            ]);
        }
    }
    all
}

fn c11(case: &mut Case) -> R {
    // All mark sets on few bars come round in a fixed order; longer tunes at random.
    for k in 0..60u64 {
        let rhythm = gen::rhythm(&mut case.rng);
        let (bars, legal) = any_bars(&mut case.rng, case.idx, k);
        case.sample(|| json!({"rhythm": format!("{:?}", rhythm), "bars": format!("{:?}", bars)}));
        judge_any(case, rhythm, &bars, legal)?;
    }
    for bars in few_marks(case.idx) {
        judge_any(case, Rhythm::new(4, 4), &bars, true)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C29

/// Whether what a rendering reports about the tune is true of it.
fn judge_report(case: &mut Case, rhythm: Rhythm, bars: &[Bar]) -> R {
    use klavier_core::global_repeat::RenderRegionWarning as W;
    use klavier_core::repeat::RenderRegionError as E;
    case.at(|| format!("bars {}", show(bars)));
    case.eval();
    // (bars with several marks count once per mark)
    let at = |r: &[Repeat]| bars.iter().flat_map(|b| r.iter().filter(|m| b.repeats.contains(**m)).map(|_| b.start_tick).collect::<Vec<_>>()).collect::<Vec<u32>>();
    let jumps = at(&[Repeat::Dc, Repeat::Ds]);
    let (dc, ds, fine, segno, coda) = (at(&[Repeat::Dc]), at(&[Repeat::Ds]), at(&[Repeat::Fine]), at(&[Repeat::Segno]), at(&[Repeat::Coda]));
    let (starts, ends) = (at(&[Repeat::Start]), at(&[Repeat::End]));
    let endings: Vec<(u32, u8)> = bars.iter().filter_map(|b| b.repeats.region_index().map(|v| (b.start_tick, v.value()))).collect();
    let r = match caught(|| render_region(rhythm, bars.iter()).map(|(_, w)| w).map_err(|e| e.current_context().clone())) {
        Ok(r) => r,
        Err(p) => return fail("crash", format!("rendering the bars {} crashed: {}", show(bars), p)),
    };
    match r {
        Ok(warnings) => {
            let mut want = vec![];
            if let [dc] = dc[..] {
                if let [segno] = segno[..] {
                    want.push(W::SegnoAndDcFound { segno_tick: segno, dc_tick: dc });
                }
                if let [coda] = coda[..] {
                    want.push(W::OrphanCodaFound { coda_tick: coda });
                }
            }
            // with no bar after the top there is nothing that could be played again
            let nothing = bars.iter().all(|b| b.start_tick == 0);
            for w in &warnings {
                ensure!(want.contains(w), "false warning", "the bars {} are reported with {:?}, expected {:?}", show(bars), warnings, want);
            }
            ensure!(warnings.len() == want.len() || nothing && warnings.len() < want.len(), "warnings", "the bars {} are reported with {:?}, expected {:?}", show(bars), warnings, want);
            ensure!(want.iter().all(|w| warnings.contains(w)) || nothing, "missing warning", "the bars {} are reported with {:?}, expected {:?}", show(bars), warnings, want);
            if !ds.is_empty() {
                ensure!(coda.len() != 1, "one coda with D.S.", "the bars {} have D.S. and only one coda and are rendered", show(bars));
            }
            if !want.is_empty() {
                case.count("warnings", want.len() as u64);
                case.nontrivial(hash_bytes(format!("{:?}", want).as_bytes()));
            }
        }
        Err(e) => {
            case.count("rejections", 1);
            let later = |t: u32| bars.iter().any(|b| b.start_tick > t && (b.repeats.contains(Repeat::End) || b.repeats.region_index().is_some()));
            #[allow(unreachable_patterns)]
            let ok = match &e {
                E::DuplicatedRepeatStart { tick } => starts.contains(tick) && starts[0] < *tick,
                E::OrphanRepeatEnd { tick } => ends.contains(tick),
                E::NoRepeatEnd { tick } => starts.contains(tick) && !later(*tick),
                E::DuplicatedSegno { tick } => segno.len() >= 2 && segno[..2] == tick[..],
                E::DuplicatedFine { tick } => fine.len() >= 2 && fine[..2] == tick[..],
                E::DuplicatedDsDc { tick } => jumps.len() >= 2 && jumps[..2] == tick[..],
                E::MoreThanTwoCodas { tick } => coda.len() >= 3 && coda[..3] == tick[..],
                E::OnlyOneCoda { tick } => coda == [*tick] && !ds.is_empty(),
                E::NoSegnoForDs { ds_tick } => ds == [*ds_tick] && segno.is_empty(),
                E::CodaAfterFine { coda_from, coda_to, fine: f } => coda == [*coda_from, *coda_to] && fine == [*f] && f < coda_to,
                E::DcDsWhileRepeat { tick } => jumps.contains(tick) && (!starts.is_empty() || !ends.is_empty()),
                E::DcDsWhileVariation { tick } => jumps.contains(tick) && !endings.is_empty(),
                E::InvalidRegionIndex { tick, actual, expected } => {
                    let (a, x) = (actual.value(), expected.value());
                    endings.contains(&(*tick, a)) && a != x && (x == 1 || endings.iter().any(|(t, n)| t < tick && *n == x - 1))
                }
                E::RepeatInVariation { tick } => ends.contains(tick) && endings.iter().any(|(t, _)| t < tick),
                E::VariationNotClosed { tick } => endings.iter().any(|(t, _)| t == tick) && bars.iter().filter(|b| b.start_tick >= *tick).all(|b| b.repeats.region_index().is_some()),
                E::SegnoWhildVariation { tick } => segno.iter().any(|s| s <= tick) && !endings.is_empty(),
                E::FineWithoutDsDc { tick } => fine.contains(tick) && jumps.is_empty(),
                E::SegnoWithoutDs { tick } => segno.contains(tick) && ds.is_empty(),
                E::CodaWithoutDsDc { tick } => coda[..] == tick[..] && jumps.is_empty(),
                E::RepeatOrVariationOnDc { tick } => dc.contains(tick),
                E::RepeatOrVariationOnDs { tick } => ds.contains(tick),
                E::FineNotAfterSegno { segno_tick, fine_tick } => segno.contains(segno_tick) && fine.contains(fine_tick),
                _ => true,
            };
            ensure!(ok, "untrue rejection", "the bars {} are refused with {:?}, which is not true of them", show(bars), e);
            case.nontrivial(hash_bytes(format!("{:?}", e).as_bytes()));
        }
    }
    Ok(())
}

fn c29(case: &mut Case) -> R {
    for k in 0..60u64 {
        let rhythm = gen::rhythm(&mut case.rng);
        let (mut bars, legal) = any_bars(&mut case.rng, case.idx, k);
        if !legal && k % 4 == 0 {
            continue;
        }
        if !legal {
            for b in bars.iter_mut() {
                b.repeats = legal_set(&mut case.rng);
            }
        }
        case.sample(|| json!({"rhythm": format!("{:?}", rhythm), "bars": format!("{:?}", bars)}));
        judge_report(case, rhythm, &bars)?;
    }
    for bars in few_marks(case.idx) {
        judge_report(case, Rhythm::new(4, 4), &bars)?;
    }
    // many global marks on a tune without regions
    for _ in 0..12 {
        let r = &mut case.rng;
        let mut bars = vec![];
        let mut t = if r.chance(2, 3) { 0u32 } else { r.range(1, 500) as u32 };
        for _ in 0..r.range(1, 8) {
            let mut s = RepeatSet::EMPTY;
            for m in [Repeat::Dc, Repeat::Ds, Repeat::Segno, Repeat::Coda, Repeat::Fine] {
                if r.chance(1, 4) {
                    if let Ok(n) = s.try_add(m) {
                        s = n;
                    }
                }
            }
            bars.push(Bar::new(t, None, None, s));
            t += r.range(1, 1000) as u32;
        }
        judge_report(case, Rhythm::new(4, 4), &bars)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C33

/// The ticks reported as those of the last time through, as ranges in rising order.
fn last_time(region: &dyn Region) -> Vec<Span> {
    region.to_iter1_interval_set().into_iter().map(|i| (i.lower(), i.upper().saturating_add(1))).collect()
}

/// The last `ticks` ticks of what is played.
fn tail(played: &[Span], ticks: u64) -> Option<Vec<Span>> {
    let mut left = ticks;
    let mut out = vec![];
    for &(s, e) in played.iter().rev() {
        if left == 0 {
            break;
        }
        let take = left.min((e - s) as u64);
        out.push((e - take as u32, e));
        left -= take;
    }
    out.reverse();
    if left == 0 { Some(order(&out)) } else { None }
}

fn c33_tune(case: &mut Case) -> R {
    let t = tune(&mut case.rng, false);
    case.at(|| format!("tune {}/{}: {} ({:?})", t.rhythm.numerator().value(), t.rhythm.denominator().value(), show(&t.bars), t));
    let (got, set) = match caught(|| render_region(t.rhythm, t.bars.iter()).map(|(r, _)| (spans(&r.to_chunks()), last_time(&*r)))) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => return Ok(()),
        Err(p) => return fail("crash", format!("asking for the last time through of the bars {} crashed: {}", show(&t.bars), p)),
    };
    let got = order(&got);
    let mut wants = vec![];
    for s in second_pass_starts(&t) {
        let (first, second) = passes(&t, s);
        let all: Vec<Span> = first.iter().chain(second.iter()).copied().collect();
        // (which of two readings of the documents holds at the top is the playing order's business)
        if order(&all) == got {
            let mut w = second;
            if t.jump.is_none() {
                w = t.segs.iter().flat_map(|s| match s {
                    Seg::Plain { from, to } | Seg::Twice { from, to } => vec![(*from, *to)],
                    Seg::Endings { from, starts, to } => vec![(*from, starts[0]), (*starts.last().unwrap(), *to)],
                }).collect();
            }
            wants.push(order(&w));
        }
    }
    if wants.is_empty() {
        case.count("tunes whose playing order is in doubt", 1);
        return Ok(());
    }
    case.eval();
    case.count(if t.jump.is_some() { "tunes with a second pass" } else { "tunes without" }, 1);
    ensure!(
        wants.contains(&order(&set)), "last-time",
        "the last time through of rhythm {}/{} bars {} is reported to be {:?}, played is {:?}",
        t.rhythm.numerator().value(), t.rhythm.denominator().value(), show(&t.bars), set, wants
    );
    if set.len() > 1 {
        case.nontrivial(hash_bytes(format!("{:?}", set).as_bytes()));
    }
    case.sample(|| json!({"bars": show(&t.bars), "last time through": format!("{:?}", set)}));
    Ok(())
}

/// Whatever the bars: what is reported is what is played in the end.
fn c33_any(case: &mut Case, rhythm: Rhythm, bars: &[Bar]) -> R {
    case.at(|| format!("bars {}", show(bars)));
    let (chunks, set) = match caught(|| render_region(rhythm, bars.iter()).map(|(r, _)| (spans(&r.to_chunks()), caught(|| last_time(&*r))))) {
        Ok(Ok(x)) => x,
        _ => return Ok(()),
    };
    let set = match set {
        Ok(s) => s,
        Err(p) => return fail("crash", format!("asking for the last time through of the bars {} crashed: {}", show(bars), p)),
    };
    case.eval();
    let played = order(&chunks);
    let has = |m| bars.iter().any(|b| b.repeats.contains(m));
    // (a D.C. in a tune of a single bar at the top has nothing to repeat)
    let jump = has(Repeat::Ds) || has(Repeat::Dc) && bars.iter().any(|b| b.start_tick > 0);
    ensure!(set.windows(2).all(|w| w[0].1 < w[1].0) && set.iter().all(|s| s.0 < s.1), "ranges", "the last time through of the bars {} is not in rising order: {:?}", show(bars), set);
    if jump {
        let ticks: u64 = set.iter().map(|s| (s.1 - s.0) as u64).sum();
        let t = tail(&played, ticks);
        ensure!(t.as_ref() == Some(&set), "last-played", "the bars {} are played {:?}, but the last time through is reported to be {:?}", show(bars), played, set);
        case.count("any bars with a second pass", 1);
    } else {
        for s in &set {
            let mut at = s.0;
            for p in sorted(&played) {
                if p.0 <= at && at < p.1 {
                    at = p.1;
                }
            }
            ensure!(at >= s.1, "not-played", "of the bars {}, {:?} is reported for the last time through but only {:?} is played", show(bars), s, played);
        }
        ensure!(set.last().map(|s| s.1) == Some(u32::MAX), "no-end", "the last time through of the bars {} does not reach the open end: {:?}", show(bars), set);
        case.count("any bars without a second pass", 1);
    }
    case.nontrivial(hash_bytes(format!("{:?} {:?}", played, set).as_bytes()));
    Ok(())
}

fn sorted(v: &[Span]) -> Vec<Span> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn c33(case: &mut Case) -> R {
    for _ in 0..30 {
        c33_tune(case)?;
    }
    for k in 0..20u64 {
        let rhythm = gen::rhythm(&mut case.rng);
        let (bars, legal) = any_bars(&mut case.rng, case.idx, k / 2 * 4 + k % 2 + 1);
        if legal {
            c33_any(case, rhythm, &bars)?;
        }
    }
    for bars in few_marks(case.idx) {
        c33_any(case, Rhythm::new(4, 4), &bars)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C12

fn c12(case: &mut Case) -> R {
    let giant = case.idx % 20_000 == 13;
    for round in if giant { 1..2 } else { 0..40 } {
        let r = &mut case.rng;
        let list: Vec<Chunk> = if round % 4 == 0 {
            let t = tune(r, false);
            match render_region(t.rhythm, t.bars.iter()) {
                Ok((reg, _)) => reg.to_chunks(),
                Err(_) => continue,
            }
        } else {
            let long = r.chance(1, 60);
            let n = if giant { 70_000 } else if long { r.below(400) } else { r.below(9) };
            let max = *r.pick(&[4u32, 20, 3000, if giant { 30_000 } else if long { 7_000_000 } else { 400_000_000 }]);
            let mut v: Vec<Span> = vec![];
            for _ in 0..n {
                let s = match v.last() {
                    Some(l) if r.chance(1, 3) => l.1,
                    _ => r.range(0, max as i64) as u32,
                };
                let e = if r.chance(1, 10) { s } else { s + r.range(0, max as i64) as u32 };
                if r.chance(1, 4) && !v.is_empty() {
                    v.push(*r.pick(&v));
                } else {
                    v.push((s, e));
                }
            }
            if r.chance(1, 2) {
                let s = match v.last() {
                    Some(l) if r.chance(1, 2) => l.1,
                    _ => match r.below(3) {
                        0 => r.range(0, max as i64) as u32,
                        1 => u32::MAX - r.range(1, 50) as u32,
                        _ => 0,
                    },
                };
                v.push((s, u32::MAX));
            }
            v.iter().map(|(s, e)| Chunk::new(*s, *e)).collect()
        };
        let sp = spans(&list);
        // How long everything before the open end takes must fit the tick type.
        let total: u64 = sp.iter().filter(|s| s.1 != u32::MAX).map(|s| (s.1 - s.0) as u64).sum();
        if total > u32::MAX as u64 {
            continue;
        }
        case.at(|| format!("ranges {:?}", sp));
        let merged = Chunk::optimize(&list);
        let msp = spans(&merged);
        case.eval();
        ensure!(order(&sp) == order(&msp), "merge order", "merging {:?} plays {:?}", sp, msp);
        for w in msp.windows(2) {
            ensure!(w[0].1 != w[1].0, "merge left", "merging {:?} left {:?}, of which two could be merged", sp, msp);
        }
        for c in &merged {
            ensure!(c.len() == c.end_tick() - c.start_tick(), "len", "the length of {:?} is {}", c, c.len());
        }
        let a = Chunk::by_accum_tick(&list);
        let b = Chunk::by_accum_tick(&merged);
        let mut ticks: BTreeSet<u32> = BTreeSet::new();
        for s in &sp {
            for t in [s.0, s.0.wrapping_sub(1), s.0.saturating_add(1), s.1, s.1.wrapping_sub(1), s.0 + (s.1 - s.0) / 2] {
                ticks.insert(t);
            }
        }
        if giant {
            case.count("lists of more than 65536 ranges", 1);
            let all: Vec<u32> = ticks.iter().copied().collect();
            ticks = (0..40).map(|_| *case.rng.pick(&all)).collect();
            // ticks that only few ranges hold, late ones first
            ticks.extend(sp.iter().rev().take(10).map(|s| s.0));
        }
        ticks.insert(case.rng.u32());
        ticks.insert(0);
        for t in ticks {
            // the occurrences, by playing
            let mut occ: Vec<u64> = vec![];
            let mut now = 0u64;
            for s in &sp {
                if s.0 <= t && t < s.1 {
                    occ.push(now + (t - s.0) as u64);
                }
                now += if s.1 == u32::MAX { 0 } else { (s.1 - s.0) as u64 };
            }
            for n in [0u8, 1, 2, 3, 4, 5, 6, 255] {
                let nth = n.clamp(1, 5) as usize;
                let want = match occ.get(nth - 1) {
                    Some(w) if *w > u32::MAX as u64 => continue,
                    Some(w) => Ok(*w as u32),
                    None => Err(ToAccumTickError::CannotFind { specified_iter: PlayIter::new(nth as u8), max_iter: occ.len() as u8 }),
                };
                for (what, st) in [("ranges", &a), ("merged ranges", &b)] {
                    let got = match caught(|| PlayStartTick::new(t, n).to_accum_tick(st)) {
                        Ok(g) => g,
                        Err(p) => return fail("crash", format!("occurrence {} of tick {} in {:?} crashed: {}", n, t, sp, p)),
                    };
                    case.evals(1);
                    ensure!(got == want, "played time", "occurrence {} of tick {} in the {} {:?} is {:?} instead of {:?}", n, t, what, sp, got, want);
                    if let Ok(v) = got {
                        case.nontrivial(hash_bytes(&[&v.to_le_bytes()[..], &t.to_le_bytes(), &[n]].concat()));
                        case.count("occurrences found", 1);
                    } else {
                        case.count("occurrences reported missing", 1);
                    }
                }
            }
            // a range contains exactly the ticks from its start up to, not including, its end
            for c in &list {
                ensure!(c.contains(t) == (c.start_tick() <= t && t < c.end_tick()), "contains", "{:?} contains {}: {}", c, t, c.contains(t));
            }
        }
        case.sample(|| json!({"ranges": format!("{:?}", sp)}));
    }
    // the iteration number
    for n in 0..=255u8 {
        let mut p = PlayIter::new(n);
        ensure!(p.iter() == n.clamp(1, 5), "iteration", "iteration {} became {}", n, p.iter());
        let before = p.iter();
        let ok = p.set_iter(case.rng.below(256) as u8);
        ensure!((1..=5).contains(&p.iter()) && (ok || p.iter() == before), "set iteration", "setting the iteration left {:?}", p);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C13

fn members(s: RepeatSet) -> BTreeSet<u8> {
    REPEATS.iter().filter(|r| s.contains(**r)).map(|r| code(*r)).collect()
}

fn names(s: &BTreeSet<u8>) -> String {
    s.iter().map(|c| format!("{:?}", REPEATS[*c as usize])).collect::<Vec<_>>().join("+")
}

fn c13_state(case: &mut Case, s: RepeatSet, forbids: &dyn Fn(u8, u8) -> bool) -> Result<Vec<RepeatSet>, crate::frame::Fail> {
    let m = members(s);
    let ends: Vec<u8> = [Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4].iter().map(|r| code(*r)).collect();
    let (start, end, dc, ds) = (code(Repeat::Start), code(Repeat::End), code(Repeat::Dc), code(Repeat::Ds));
    let has = |c: u8| m.contains(&c);
    let n_end = ends.iter().filter(|c| has(**c)).count();
    ensure!(n_end <= 1, "two endings", "one bar carries {}", names(&m));
    ensure!(n_end == 0 || !(has(start) || has(end)), "ending with repeat", "one bar carries {}", names(&m));
    ensure!(!(has(start) && (has(dc) || has(ds))), "start with jump", "one bar carries {}", names(&m));
    ensure!(s.len() == m.len(), "len", "{} has length {}", names(&m), s.len());
    let idx = s.region_index().map(|v| code(v.to_repeat()));
    ensure!(idx == ends.iter().copied().find(|c| has(*c)), "region index", "{} has ending {:?}", names(&m), s.region_index());
    let mut next = vec![];
    for (c, r) in REPEATS.iter().enumerate() {
        let c = c as u8;
        case.evals(2);
        let blockers: BTreeSet<u8> = m.iter().copied().filter(|x| forbids(*x, c)).collect();
        match s.try_add(*r) {
            Ok(n) => {
                let mut want = m.clone();
                want.insert(c);
                ensure!(members(n) == want, "added", "adding {:?} to {} gave {}", r, names(&m), names(&members(n)));
                ensure!(blockers.is_empty(), "forbidden added", "{:?} was added to {} although {} forbids it", r, names(&m), names(&blockers));
                next.push(n);
            }
            Err(e) => {
                let e: EnumSet<Repeat> = e;
                let es: BTreeSet<u8> = e.iter().map(code).collect();
                ensure!(!es.is_empty(), "empty conflict", "adding {:?} to {} was refused without a reason", r, names(&m));
                ensure!(es.is_subset(&m), "foreign conflict", "adding {:?} to {} was refused because of {}", r, names(&m), names(&es));
                let mut t = s;
                for x in &es {
                    t = t.remove(REPEATS[*x as usize]);
                }
                ensure!(t.try_add(*r).is_ok(), "conflict incomplete", "after removing {} from {}, {:?} still cannot be added", names(&es), names(&m), r);
                ensure!(es == blockers, "conflict wrong", "adding {:?} to {} blames {}, but {} forbid it", r, names(&m), names(&es), names(&blockers));
            }
        }
        let n = s.remove(*r);
        let mut want = m.clone();
        want.remove(&c);
        ensure!(members(n) == want, "removed", "removing {:?} from {} gave {}", r, names(&m), names(&members(n)));
        next.push(n);
    }
    let n = s.remove_resions();
    let want: BTreeSet<u8> = m.iter().copied().filter(|c| !ends.contains(c)).collect();
    ensure!(members(n) == want, "endings removed", "removing the endings from {} gave {}", names(&m), names(&members(n)));
    case.evals(1);
    next.push(n);
    case.nontrivial(m.iter().fold(0u64, |a, c| a | 1 << c) + 1);
    Ok(next)
}

fn c13(case: &mut Case) -> R {
    // Which single mark forbids which, as observed.
    let mut table = [[false; 11]; 11];
    for (i, m) in REPEATS.iter().enumerate() {
        let one = match RepeatSet::EMPTY.try_add(*m) {
            Ok(o) => o,
            Err(e) => return fail("empty refuses", format!("{:?} cannot be added to no marks: {:?}", m, e)),
        };
        for (j, r) in REPEATS.iter().enumerate() {
            table[i][j] = one.try_add(*r).is_err();
        }
    }
    let forbids = move |m: u8, r: u8| table[m as usize][r as usize];
    let mut seen: BTreeSet<BTreeSet<u8>> = BTreeSet::new();
    let mut todo = vec![RepeatSet::EMPTY, RepeatSet::default()];
    ensure!(members(RepeatSet::default()).is_empty() && members(RepeatSet::EMPTY).is_empty(), "empty", "the empty set of marks is not empty");
    while let Some(s) = todo.pop() {
        if !seen.insert(members(s)) {
            continue;
        }
        todo.extend(c13_state(case, s, &forbids)?);
    }
    case.count("reachable mark sets", seen.len() as u64);
    case.sample(|| json!({"reachable": seen.len()}));
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C10", rule: "a case is 40 random tunes that follow the documented structure (plain, repeat and 2-4 ending regions, upbeats, D.C./D.S./Segno/Fine/codas at any documented bar); the rendered ranges are compared with an independent player that walks the marks; non-trivial: distinct playing orders with more than one range",
            assumptions: &["ticks below 2^32 also when summed"], quick: 100000, thorough_s: Some(420), finite: None, threads: 8, run: c10,
        },
        CheckDef {
            id: "C11", rule: "a case is 68 bar lists: any of the 2048 mark sets (in turn) on one bar with any on a second, random lists of legal and of arbitrary sets, documented tunes with one thing wrong, and all placements of up to three marks on three bars in turn; crashes, backward ranges, unplayed parts and accepted contradictions are violations; non-trivial: distinct playing orders and (error, length)",
            assumptions: &["bars in strictly increasing tick order"], quick: 50000, thorough_s: Some(420), finite: None, threads: 8, run: c11,
        },
        CheckDef {
            id: "C29", rule: "a case is up to 65 bar lists: random lists of legal mark sets, documented tunes with one thing wrong, all placements of up to three marks on three bars in turn, and lists dense in D.C., D.S., Segno, codas and Fine; every warning and every rejection is checked against the marks that are there, and every mark that has to be warned of against the warnings; non-trivial: distinct warnings and rejections",
            assumptions: &["bars in strictly increasing tick order", "mark sets that can be built by adding marks"], quick: 50000, thorough_s: Some(300), finite: None, threads: 8, run: c29,
        },
        CheckDef {
            id: "C33", rule: "a case is 30 random tunes that follow the documented structure and up to 28 lists of any legal mark sets; the set of ticks reported for the last time through is compared with an independent player, and with the end of the rendered ranges; non-trivial: distinct sets and playing orders",
            assumptions: &["bars in strictly increasing tick order"], quick: 60000, thorough_s: Some(300), finite: None, threads: 8, run: c33,
        },
        CheckDef {
            id: "C12", rule: "a case is 40 range lists (rendered tunes and random lists with overlaps, repeats, empty and open ranges); every occurrence of ticks around all boundaries is compared with a playback, before and after merging; non-trivial: distinct (tick, occurrence, played time)",
            assumptions: &["the total played time fits 32 bits", "an open range comes last"], quick: 12000, thorough_s: Some(420), finite: None, threads: 8, run: c12,
        },
        CheckDef {
            id: "C13", rule: "every mark set reachable by additions and removals from the empty one, with every addition and removal on it; non-trivial: distinct mark sets",
            assumptions: &[], quick: 1, thorough_s: None, finite: Some(1), threads: 1, run: c13,
        },
    ]
}
