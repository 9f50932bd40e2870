//! Generators of legal values, built through the library's public constructors.

use crate::rng::Rng;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;

pub const SHARP_FLATS: [SharpFlat; 6] =
    [SharpFlat::Null, SharpFlat::Sharp, SharpFlat::DoubleSharp, SharpFlat::Flat, SharpFlat::DoubleFlat, SharpFlat::Natural];

pub const REPEATS: [Repeat; 11] = [
    Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda,
    Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4,
];

pub const NUMERATORS: [Numerator; 8] = [
    Numerator::Whole, Numerator::Half, Numerator::Quarter, Numerator::N8th,
    Numerator::N16th, Numerator::N32nd, Numerator::N64th, Numerator::N128th,
];

pub fn rhythm(r: &mut Rng) -> Rhythm {
    if r.chance(3, 4) {
        let (n, d) = *r.pick(&[(4, 4), (3, 4), (2, 4), (6, 8), (2, 2), (5, 8), (12, 8), (1, 4), (7, 16), (3, 32)]);
        Rhythm::new(n, d)
    } else {
        Rhythm::new(r.range(1, 99) as u8, *r.pick(&[2, 4, 8, 16, 32, 64]))
    }
}

pub fn key(r: &mut Rng) -> Key {
    *r.pick(&Key::ALL)
}

pub fn grid(r: &mut Rng) -> Grid {
    let v = match r.below(4) {
        0 => r.range(1, 10) as u32,
        1 => *r.pick(&[30, 60, 120, 240, 480, 960]),
        2 => r.range(1, 100_000) as u32,
        _ => {
            if r.chance(1, 4) {
                u32::MAX
            } else {
                r.range(1, u32::MAX as i64) as u32
            }
        }
    };
    Grid::from_u32(v).unwrap()
}

pub fn pitch(r: &mut Rng) -> Pitch {
    loop {
        let s = *r.pick(Solfa::ALL);
        let o = if r.chance(1, 4) { *r.pick(&[Octave::OctM2, Octave::Oct8, Octave::Oct7]) } else { *r.pick(Octave::ALL) };
        let f = *r.pick(&SHARP_FLATS);
        if let Ok(p) = Pitch::value_of(s, o, f) {
            return p;
        }
    }
}

pub fn dots(r: &mut Rng) -> Dots {
    Dots::from_value(if r.chance(1, 2) { 0 } else { r.below(8) as u8 }).unwrap()
}

pub fn duration(r: &mut Rng) -> Duration {
    let den = match r.below(4) {
        0 | 1 => 2,
        2 => r.range(2, 9) as u8,
        _ => r.range(2, 255) as u8,
    };
    Duration::new(*r.pick(&NUMERATORS), Denominator::from_value(den).unwrap(), dots(r))
}

pub fn i16_any(r: &mut Rng) -> i16 {
    match r.below(8) {
        0 => i16::MAX,
        1 => i16::MIN,
        2 => i16::MAX - r.below(3) as i16,
        3 => i16::MIN + r.below(3) as i16,
        4 => r.range(i16::MIN as i64, i16::MAX as i64) as i16,
        _ => r.range(-200, 200) as i16,
    }
}

pub fn trimmer(r: &mut Rng, wild: bool) -> Trimmer {
    match r.below(4) {
        0 | 1 => Trimmer::ZERO,
        2 => Trimmer::new(r.range(-120, 120) as i16, r.range(-30, 30) as i16, r.range(-9, 9) as i16, r.range(-3, 3) as i16),
        _ => {
            if wild {
                Trimmer::new(i16_any(r), i16_any(r), i16_any(r), i16_any(r))
            } else {
                Trimmer::new(r.range(-500, 500) as i16, r.range(-500, 500) as i16, 0, 0)
            }
        }
    }
}

pub fn percent(r: &mut Rng) -> PercentU16 {
    PercentU16::from_value(match r.below(5) {
        0 => 1000,
        1 => 2000,
        2 => *r.pick(&[0, 1, 500, 900, 999, 1001, 1999]),
        _ => r.range(0, 2000) as u16,
    })
}

pub fn rate(r: &mut Rng) -> RateTrimmer {
    match r.below(5) {
        0 | 1 => RateTrimmer::ONE,
        2 => RateTrimmer::new(
            r.range(0, 300) as f32 / 100.0,
            r.range(50, 150) as f32 / 100.0,
            1.0,
            r.range(0, 2000) as f32 / 1000.0,
        ),
        3 => {
            let v = vec![percent(r), percent(r), percent(r), percent(r)];
            RateTrimmer::from_vec(&v)
        }
        _ => RateTrimmer::from_array([percent(r), PercentU16::HUNDRED, PercentU16::HUNDRED, PercentU16::HUNDRED]),
    }
}

pub fn velocity(r: &mut Rng) -> Velocity {
    Velocity::new(match r.below(4) {
        0 => 0,
        1 => 127,
        _ => r.below(128) as u8,
    })
}

pub fn channel(r: &mut Rng) -> Channel {
    Channel::new(if r.chance(1, 2) { 0 } else { r.below(16) as u8 })
}

pub struct Ticks {
    /// A few ticks that collide often.
    pub pool: Vec<u32>,
    pub max: u32,
}

impl Ticks {
    pub fn new(r: &mut Rng, max: u32) -> Self {
        let n = r.range(4, 10);
        let mut pool: Vec<u32> = (0..n).map(|_| r.range(0, max as i64) as u32).collect();
        pool.push(0);
        pool.push(1);
        pool.push(960);
        pool.push(240 * r.below(16) as u32);
        Self { pool, max }
    }
    pub fn tick(&self, r: &mut Rng) -> u32 {
        match r.below(8) {
            0..=4 => *r.pick(&self.pool),
            5 => 240 * r.below(1 + self.max as u64 / 240) as u32,
            6 => r.pick(&self.pool).saturating_add(r.below(3) as u32),
            _ => r.range(0, self.max as i64) as u32,
        }
    }
}

pub fn note(r: &mut Rng, t: &Ticks, wild: bool) -> Note {
    let simple = r.chance(1, 3);
    let tie = r.chance(1, 4);
    let tied = r.chance(1, 4);
    if simple {
        Note::new(
            t.tick(r), pitch(r),
            Duration::new(*r.pick(&NUMERATORS), Denominator::default(), Dots::ZERO),
            tie, tied, velocity(r), Trimmer::ZERO, RateTrimmer::ONE, Trimmer::ZERO, channel(r),
        )
    } else {
        Note::new(t.tick(r), pitch(r), duration(r), tie, tied, velocity(r), trimmer(r, wild), rate(r), trimmer(r, wild), channel(r))
    }
}

/// The longest note there is; it can end after everything that starts later.
pub fn long_note(r: &mut Rng, tick: u32) -> Note {
    Note::new(
        tick, pitch(r),
        Duration::new(Numerator::Whole, Denominator::default(), Dots::from_value(r.below(8) as u8).unwrap()),
        false, false, velocity(r), Trimmer::ZERO, RateTrimmer::new(2.0, 1.0, 1.0, 1.0), Trimmer::ZERO, channel(r),
    )
}

pub fn repeat_set(r: &mut Rng) -> RepeatSet {
    let mut s = RepeatSet::EMPTY;
    if r.chance(1, 2) {
        return s;
    }
    for _ in 0..r.range(1, 4) {
        if let Ok(n) = s.try_add(*r.pick(&REPEATS)) {
            s = n;
        }
    }
    s
}

pub fn bar(r: &mut Rng, t: &Ticks) -> Bar {
    let rh = if r.chance(1, 3) { Some(rhythm(r)) } else { None };
    let k = if r.chance(1, 3) { Some(key(r)) } else { None };
    Bar::new(t.tick(r), rh, k, repeat_set(r))
}

pub fn tempo(r: &mut Rng, t: &Ticks) -> Tempo {
    let v = match r.below(4) {
        0 => 1,
        1 => 999,
        _ => r.range(1, 999) as u16,
    };
    Tempo::new(t.tick(r), v)
}

pub fn ctrl(r: &mut Rng, t: &Ticks) -> CtrlChg {
    CtrlChg::new(t.tick(r), velocity(r), channel(r))
}

pub fn models(r: &mut Rng, t: &Ticks, wild: bool, max_each: u64) -> Models {
    let mut m = Models::empty();
    let which = if r.chance(1, 3) { 31 } else { r.below(32) };
    if which & 1 != 0 {
        for _ in 0..r.below(max_each + 1) {
            let n = note(r, t, wild);
            if r.chance(1, 8) {
                m.notes.push(n.clone());
            }
            m.notes.push(n);
        }
    }
    if which & 2 != 0 {
        for _ in 0..r.below(max_each + 1) {
            m.bars.push(bar(r, t));
        }
    }
    if which & 4 != 0 {
        for _ in 0..r.below(max_each + 1) {
            m.tempos.push(tempo(r, t));
        }
    }
    if which & 8 != 0 {
        for _ in 0..r.below(max_each + 1) {
            m.dumpers.push(ctrl(r, t));
        }
    }
    if which & 16 != 0 {
        for _ in 0..r.below(max_each + 1) {
            m.softs.push(ctrl(r, t));
        }
    }
    m
}

/// More items of each of the given kinds than 16 bits can count, at as many different ticks, in order.
/// (0: bars, 1: notes, 2: bars that hardly ever carry anything, 3: tempos, 4 and 5: pedal changes)
pub fn giant(r: &mut Rng, t: &Ticks, wild: bool, kinds: &[u64]) -> Models {
    let mut m = Models::empty();
    let n = 66_000 + r.range(0, 6000) as u32;
    let step = t.max / n;
    for kind in kinds {
        for i in 0..n {
            let at = i * step + if i == 0 { 0 } else { r.below(step as u64) as u32 };
            match kind {
                0 => m.bars.push(Bar { start_tick: at, ..bar(r, t) }),
                2 if !r.chance(1, 20_000) => m.bars.push(Bar::new(at, None, None, RepeatSet::EMPTY)),
                2 => m.bars.push(Bar { start_tick: at, ..bar(r, t) }),
                3 => m.tempos.push(Tempo { start_tick: at, ..tempo(r, t) }),
                4 => m.dumpers.push(CtrlChg { start_tick: at, ..ctrl(r, t) }),
                5 => m.softs.push(CtrlChg { start_tick: at, ..ctrl(r, t) }),
                _ => m.notes.push(Note { base_start_tick: at, ..note(r, t, wild) }),
            }
        }
    }
    m
}
