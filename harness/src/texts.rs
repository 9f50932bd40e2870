//! C32: what is shown of a value, typed in again.

use crate::ensure;
use crate::frame::{caught, fail, Case, CheckDef, Fail, R};
use crate::gen::{self, Ticks};
use crate::refm::*;
use crate::rng::hash_bytes;
use klavier_core::duration;
use klavier_core::grid::Grid;
use klavier_core::location::{parse_location, Location};
use klavier_core::models::Models;
use klavier_core::percent::PercentU16;
use klavier_core::project::ProjectImpl;
use klavier_core::rhythm;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::TempoValue;
use klavier_core::text_input::{TextInput, Validated};
use klavier_core::velocity::Velocity;
use serde_json::json;
use std::collections::HashMap;
use std::str::FromStr;

fn shown(what: &str, f: impl FnOnce() -> String) -> Result<String, Fail> {
    match caught(f) {
        Ok(s) => Ok(s),
        Err(p) => fail(format!("{} crash", what), format!("showing a {} crashed: {}", what, p)),
    }
}

/// Typed into a field at once, and typed into it letter by letter after something else stood there.
fn typed<T: Copy, E>(case: &mut Case, what: &str, text: &str, is: impl Fn(T) -> bool) -> R
where Validated<Option<T>>: FromStr<Err = E> {
    case.evals(2);
    let r = caught(|| {
        let f = TextInput::<Option<T>, E>::from_string(text.to_string());
        let one = matches!(f.validate(), Ok(Validated(Some(v))) if is(*v));
        let mut f = TextInput::<Option<T>, E>::from_string("x".to_string());
        f.mutate(|s| s.clear());
        let empty = matches!(f.validate(), Ok(Validated(None)));
        for c in text.chars() {
            f.mutate(|s| s.push(c));
        }
        (one, empty, matches!(f.validate(), Ok(Validated(Some(v))) if is(*v)))
    });
    match r {
        Ok((true, true, true)) => Ok(()),
        Ok(_) => fail(format!("{} text", what), format!("a {} shows {:?}, which typed in does not give it back", what, text)),
        Err(p) => fail(format!("{} crash", what), format!("typing the {} {:?} crashed: {}", what, text, p)),
    }
}

struct Shows(&'static str, HashMap<String, String>);
impl Shows {
    fn new(what: &'static str) -> Self {
        Shows(what, HashMap::new())
    }
    fn add(&mut self, case: &mut Case, text: &str, value: String) -> R {
        case.eval();
        case.nontrivial(hash_bytes(format!("{} {}", self.0, value).as_bytes()));
        if let Some(old) = self.1.insert(text.to_string(), value.clone()) {
            ensure!(old == value, format!("{} ambiguous", self.0), "{} {} and {} {} both show {:?}", self.0, old, self.0, value, text);
        }
        Ok(())
    }
}

fn every_value(case: &mut Case) -> R {
    let mut s = Shows::new("velocity");
    for v in 0..=127u8 {
        let t = shown("velocity", || Velocity::new(v).to_string())?;
        s.add(case, &t, v.to_string())?;
        typed::<Velocity, _>(case, "velocity", &t, |x| x.as_u8() == v && x == Velocity::new(v))?;
    }
    let mut s = Shows::new("percentage");
    for v in 0..=2000u16 {
        let p = PercentU16::from_value(v);
        let t = shown("percentage", || p.to_string())?;
        s.add(case, &t, v.to_string())?;
        typed::<PercentU16, _>(case, "percentage", &t, |x| x == p && permille(x) == v as i64)?;
        let f = p.to_f32();
        ensure!(PercentU16::from(f) == p, "percentage number", "percentage {} as the number {} becomes {:?}", v, f, PercentU16::from(f));
    }
    let mut s = Shows::new("tempo");
    for v in 1..=999u16 {
        let p = TempoValue::new(v);
        let t = shown("tempo", || p.as_u16().to_string())?;
        s.add(case, &t, v.to_string())?;
        typed::<TempoValue, _>(case, "tempo", &t, |x| x == p && x.value() == v)?;
    }
    let mut s = Shows::new("beat count");
    for v in 1..=99u8 {
        let p = rhythm::Numerator::from_value(v).unwrap();
        let t = shown("beat count", || p.to_string())?;
        s.add(case, &t, v.to_string())?;
        typed::<rhythm::Numerator, _>(case, "beat count", &t, |x| x == p && x.value() == v)?;
        case.eval();
        match caught(|| rhythm::Numerator::from_str(&t)) {
            Ok(Ok(x)) if x == p => {}
            e => return fail("beat count text", format!("the beat count {} shows {:?}, which is read as {:?}", v, t, e.map(|e| e.ok()))),
        }
    }
    let mut s = Shows::new("beat unit");
    for d in rhythm::DENOMINATORS {
        let t = shown("beat unit", || d.to_string())?;
        s.add(case, &t, d.value().to_string())?;
        let back = t.parse::<u8>().ok().and_then(|n| rhythm::Denominator::from_value(n).ok());
        ensure!(back == Some(d), "beat unit text", "the beat unit {:?} shows {:?}", d, t);
    }
    let mut s = Shows::new("tuplet divisor");
    for v in 2..=255u8 {
        let p = duration::Denominator::from_value(v).unwrap();
        let t = shown("tuplet divisor", || p.to_string())?;
        s.add(case, &t, v.to_string())?;
        typed::<duration::Denominator, _>(case, "tuplet divisor", &t, |x| x == p && x.value() == v)?;
    }
    for v in i16::MIN..=i16::MAX {
        typed::<i16, _>(case, "offset", &v.to_string(), |x| x == v)?;
    }
    let mut s = Shows::new("note name");
    for v in Solfa::ALL {
        let t = shown("note name", || v.to_string())?;
        s.add(case, &t, format!("{:?}", v))?;
    }
    let mut s = Shows::new("mark");
    for v in gen::REPEATS {
        let t = shown("mark", || v.to_string())?;
        s.add(case, &t, format!("{:?}", v))?;
    }
    for bar in (0..30usize).chain([99, 100, 101, 255, 256, 999, 1000]) {
        for offset in (0..12).chain([99, 100, 239, 240, 959, 960, 1000]) {
            location(case, Location::new(bar, offset))?;
        }
    }
    for g in 1..=5000 {
        grid(case, g)?;
    }
    case.count("enumerable values completely", 1);
    Ok(())
}

fn location(case: &mut Case, l: Location) -> R {
    let t = shown("location", || l.to_string())?;
    let is = |x: Location| x == l && x.bar_no() == l.bar_no() && x.offset() == l.offset();
    // (reading a location is slow)
    if case.nontrivial_len() % 16 == 0 {
        typed::<Location, _>(case, "location", &t, is)?;
    }
    case.evals(2);
    match caught(|| (Location::parse(&t), parse_location(&t))) {
        Ok((Some(a), Some(b))) if is(a) && is(b) => {}
        e => return fail("location text", format!("{:?} shows {:?}, which is read as {:?}", l, t, e)),
    }
    case.nontrivial(hash_bytes(t.as_bytes()));
    Ok(())
}

fn grid(case: &mut Case, v: u32) -> R {
    let g = Grid::from_u32(v).unwrap();
    let t = shown("grid", || g.to_string())?;
    case.eval();
    match caught(|| Grid::value_of(&t)) {
        Ok(Ok(x)) if x == g && x.as_u32() == v => {}
        e => return fail("grid text", format!("the grid {} shows {:?}, which is read as {:?}", v, t, e)),
    }
    case.nontrivial(hash_bytes(format!("grid {}", t).as_bytes()));
    Ok(())
}

fn c32(case: &mut Case) -> R {
    if case.idx == 0 {
        return every_value(case);
    }
    let wide = |case: &mut Case| -> usize {
        let r = &mut case.rng;
        let edges = [0u64, 9, 10, 255, 256, 65535, 65536, i32::MAX as u64, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX - 1, u64::MAX];
        match r.below(4) {
            0 => *r.pick(&edges) as usize,
            1 => {
                let bits = r.range(1, 63);
                r.below(1 << bits) as usize
            }
            2 => {
                let digits = r.range(0, 19) as u32;
                10u64.pow(digits).wrapping_sub(r.below(3)) as usize
            }
            _ => r.below(5000) as usize,
        }
    };
    for _ in 0..8 {
        let l = Location::new(wide(case), wide(case));
        case.at(|| format!("{:?}", l));
        location(case, l)?;
        let g = (wide(case) as u32).max(1);
        case.at(|| format!("grid {}", g));
        grid(case, g)?;
    }
    // a place in a tune, shown to the user and typed in by the user
    let max = *case.rng.pick(&[8000u32, 200_000]);
    let t = Ticks::new(&mut case.rng, max);
    let mut m = Models::empty();
    m.bars = gen::models(&mut case.rng, &t, false, 8).bars;
    let j = json!({ "rhythm": gen::rhythm(&mut case.rng), "key": 0, "grid": {"value": 60}, "models": m });
    let p: ProjectImpl = serde_json::from_value(j.clone()).unwrap();
    for _ in 0..8 {
        let tick = if case.rng.chance(1, 2) { case.rng.below(max as u64 * 2) as u32 } else { t.tick(&mut case.rng).saturating_add_signed(case.rng.range(-2, 2) as i32) };
        case.at(|| format!("tick {} of {}", tick, j));
        let text = shown("location", || p.tick_to_location(tick).to_string())?;
        case.eval();
        let got = caught(|| {
            let f = TextInput::<Option<Location>, _>::from_string(text.clone());
            match f.validate() {
                Ok(Validated(Some(l))) => Some(p.location_to_tick(*l)),
                _ => None,
            }
        });
        match got {
            Ok(Some(Ok(b))) if b == tick => {}
            e => return fail("place in a tune", format!("tick {} is shown as {:?}, which typed in leads to {:?}; bars {:?}", tick, text, e, m.bars)),
        }
        case.count("places in tunes", 1);
    }
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![CheckDef {
        id: "C32", rule: "case 0: every velocity, percentage, tempo, beat count, beat unit, tuplet divisor, 16-bit offset, note name and mark, with the locations and grids of small numbers, is shown and what is shown typed in again, at once and letter by letter; the others: 8 locations and grids of any size and 8 places in a random tune; non-trivial: distinct values shown",
        assumptions: &["a tempo and an offset are shown as the decimal number of their value"], quick: 8000, thorough_s: Some(180), finite: None, threads: 8, run: c32,
    }]
}
