//! C18-C26: pitches, keys, notes, tuplets, grid, typed-in text, the in-memory history, item edits, value types.

use crate::ensure;
use crate::frame::{caught, fail, Case, CheckDef, R};
use crate::gen::{self, NUMERATORS, REPEATS, SHARP_FLATS};
use crate::refm::*;
use crate::rng::{hash_bytes, Rng};
use klavier_core::bar::{Bar, VarIndex, VarIndexError};
use klavier_core::can_apply::CanApply;
use klavier_core::bar::RepeatSet;
use klavier_core::channel::Channel;
use klavier_core::clipper;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{self, Dots, Duration, Numerator};
use klavier_core::fly_weight::FlyWeight;
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::{Grid, GridError};
use klavier_core::have_start_tick::{HaveBaseStartTick, HaveStartTick};
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::{FromClipboardTextErr, Models};
use klavier_core::note::{Note, NoteBuilder, TickError};
use klavier_core::octave::{Octave, OctaveError};
use klavier_core::percent::PercentU16;
use klavier_core::pitch::{self, Pitch, PitchBuilder, PitchError};
use klavier_core::play_iter::PlayIter;
use klavier_core::project::ModelChangeMetadata;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::text_input::{DurationDenominatorError, TextInput, Validated};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::tuple::tuplize;
use klavier_core::undo::{Undo, UndoStore};
use klavier_core::velocity::Velocity;
use serde_json::json;
use std::collections::hash_map::{DefaultHasher, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::str::FromStr;

fn sig(x: impl std::fmt::Debug) -> u64 {
    hash_bytes(format!("{:?}", x).as_bytes())
}

fn any_i32(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => i32::MAX - r.below(4) as i32,
        1 => i32::MIN + r.below(4) as i32,
        2 => r.range(i32::MIN as i64, i32::MAX as i64) as i32,
        3 => 0,
        _ => r.range(-300, 300) as i32,
    }
}

// ---------------------------------------------------------------- C18

/// What a pitch should be: MIDI number and staff position.
fn ref_value(s: usize, o: i64, f: usize) -> i64 {
    SEMITONES[s] + 12 * (o + 2) + SF_SEMITONE[f]
}

fn show(p: Pitch) -> (i64, i64, i64, i64, i64) {
    (solfa_no(p.solfa()), p.octave().value() as i64, sf_no(p.sharp_flat()), p.value() as i64, p.score_offset() as i64)
}

/// The pitch at a staff position with an accidental, if there is one.
fn ref_at(pos: i64, f: usize) -> Option<(i64, i64, i64, i64, i64)> {
    if pos < 0 || pos >= 77 {
        return None;
    }
    let (s, o) = ((pos % 7) as usize, pos / 7 - 2);
    let v = ref_value(s, o, f);
    if (0..=127).contains(&v) {
        Some((s as i64, o, f as i64, v, pos))
    } else {
        None
    }
}

fn want_pitch(what: &str, of: Pitch, got: Result<Result<Pitch, PitchError>, String>, want: Option<(i64, i64, i64, i64, i64)>) -> R {
    match (got, want) {
        (Err(p), _) => fail(format!("{} crash", what), format!("{} of {:?} crashed: {}", what, of, p)),
        (Ok(Ok(p)), w) => {
            ensure!(Some(show(p)) == w, what, "{} of {:?} is {:?}, expected (name, octave, accidental, number, position) {:?}", what, of, p, w);
            Ok(())
        }
        (Ok(Err(e)), w) => {
            let _ = e.to_string();
            ensure!(w.is_none(), what, "{} of {:?} is refused ({:?}), expected {:?}", what, of, e, w);
            Ok(())
        }
    }
}

fn c18(case: &mut Case) -> R {
    let i = case.idx as usize;
    let (s, o, f) = (i % 7, (i / 7) % 11, (i / 77) % 6);
    let (solfa, octave, sf) = (Solfa::ALL[s], Octave::ALL[o], SHARP_FLATS[f]);
    ensure!(solfa_no(solfa) == s as i64 && octave.value() as i64 == o as i64 - 2, "lists", "the lists of names and octaves are not in order");
    let v = ref_value(s, o as i64 - 2, f);
    case.eval();
    case.at(|| format!("{:?} {:?} {:?} = {}", solfa, octave, sf, v));
    let legal = (0..=127).contains(&v);
    ensure!(Pitch::to_value(solfa, octave, sf) as i64 == v, "number", "the number of {:?} {:?} {:?} is {}, expected {}", solfa, octave, sf, Pitch::to_value(solfa, octave, sf), v);
    let new = caught(|| Pitch::new(solfa, octave, sf));
    ensure!(new.is_ok() == legal, "new", "Pitch::new({:?}, {:?}, {:?}) with number {}: {:?}", solfa, octave, sf, v, new);
    // the builder, with any of the three parts left as they are by default (A4)
    for unset in 0..8u8 {
        let (s, o, f) = (if unset & 1 != 0 { 5 } else { s }, if unset & 2 != 0 { 6 } else { o }, if unset & 4 != 0 { 0 } else { f });
        let built = caught(|| {
            let mut b = PitchBuilder::default();
            if unset & 1 == 0 {
                b.solfa(solfa);
            }
            if unset & 2 == 0 {
                b.octave(octave);
            }
            if unset & 4 == 0 {
                b.sharp_flat(sf);
            }
            b.build().ok()
        });
        case.eval();
        let v = ref_value(s, o as i64 - 2, f);
        let want = if (0..=127).contains(&v) { Some((s as i64, o as i64 - 2, f as i64, v, s as i64 + 7 * o as i64)) } else { None };
        match built {
            Err(p) => fail("builder-crash", format!("building a pitch of {:?} {:?} {:?} crashed: {}", Solfa::ALL[s], Octave::ALL[o], SHARP_FLATS[f], p))?,
            Ok(got) => ensure!(got.map(show) == want, "builder", "building a pitch of {:?} {:?} {:?} gives {:?} (number {})", Solfa::ALL[s], Octave::ALL[o], SHARP_FLATS[f], got, v),
        }
    }
    let p = match Pitch::value_of(solfa, octave, sf) {
        Ok(p) => {
            ensure!(legal, "accepted", "{:?} {:?} {:?} (number {}) is accepted", solfa, octave, sf, v);
            p
        }
        Err(PitchError::TooLow(a, b, c, n)) => {
            ensure!(v < 0 && (a, b, c) == (solfa, octave, sf) && n as i64 == v, "refused", "{:?} {:?} {:?} (number {}) is refused as too low ({:?} {:?} {:?} {})", solfa, octave, sf, v, a, b, c, n);
            case.count("combinations too low", 1);
            return Ok(());
        }
        Err(PitchError::TooHigh(a, b, c, n)) => {
            ensure!(v > 127 && (a, b, c) == (solfa, octave, sf) && n as i64 == v, "refused", "{:?} {:?} {:?} (number {}) is refused as too high ({:?} {:?} {:?} {})", solfa, octave, sf, v, a, b, c, n);
            case.count("combinations too high", 1);
            return Ok(());
        }
        Err(e) => return fail("refused", format!("{:?} {:?} {:?} (number {}) is refused with {:?}", solfa, octave, sf, v, e)),
    };
    case.count("pitches", 1);
    case.nontrivial(i as u64);
    let pos = s as i64 + 7 * o as i64;
    ensure!(show(p) == (s as i64, o as i64 - 2, f as i64, v, pos), "pitch", "{:?} has (name, octave, accidental, number, position) {:?}", p, show(p));
    ensure!(new == Ok(p), "new", "Pitch::new disagrees with value_of: {:?}", new);
    // moves
    want_pitch("up", p, caught(|| p.up()), ref_at(pos + 1, f))?;
    want_pitch("down", p, caught(|| p.down()), ref_at(pos - 1, f))?;
    case.evals(2);
    if let Ok(q) = p.up() {
        let back = q.down();
        ensure!(matches!(back, Ok(b) if b == p), "inverse", "down after up of {:?} is {:?}", p, back);
    }
    if let Ok(q) = p.down() {
        let back = q.up();
        ensure!(matches!(back, Ok(b) if b == p), "inverse", "up after down of {:?} is {:?}", p, back);
    }
    let mut deltas: Vec<i64> = (-160..=160).collect();
    for e in [i32::MAX as i64, i32::MIN as i64] {
        for k in 0..130 {
            deltas.push(e - k * e.signum());
        }
    }
    for k in [127i64, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 1 << 30] {
        for d in -130..=130 {
            deltas.push(k + d);
            deltas.push(-k + d);
        }
    }
    for d in deltas {
        case.eval();
        want_pitch(&format!("shifting by {}", d), p, caught(|| p.with_score_offset_delta(d as i32)), ref_at(pos + d, f)).map_err(|mut e| {
            e.key = "shift".into();
            e
        })?;
    }
    // toggles
    let own: [(&str, [usize; 3], fn(Pitch) -> Result<Pitch, PitchError>); 3] = [
        ("toggle_sharp", [1, 2, 0], |p| p.toggle_sharp()),
        ("toggle_flat", [3, 4, 0], |p| p.toggle_flat()),
        ("toggle_natural", [5, 0, 0], |p| p.toggle_natural()),
    ];
    for (name, cycle, op) in own {
        case.eval();
        let next = match cycle.iter().position(|c| *c == f) {
            Some(k) if f != 0 => cycle[k + 1],
            _ => cycle[0],
        };
        want_pitch(name, p, caught(|| op(p)), ref_at(pos, next))?;
    }
    // positions to pitches, the limits and conversions
    let (cs, co) = Pitch::score_offset_to_solfa_octave(pos as i32);
    ensure!((cs, co) == (solfa, octave), "position", "position {} is {:?} {:?}", pos, cs, co);
    if i == 0 || f == 0 {
        for d in (-200i64..=300).chain([i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1]) {
            case.eval();
            let got = caught(|| Pitch::from_score_offset(d as i32));
            let want = ref_at(d.clamp(0, 74), 0);
            ensure!(got.as_ref().map(|g| Some(show(*g))) == Ok(want), "from position", "from_score_offset({}) is {:?}, expected {:?}", d, got, want);
        }
        ensure!(pitch::MIN.value() == 0 && pitch::MAX.value() == 127, "limits", "the lowest and highest pitch are {:?} and {:?}", pitch::MIN, pitch::MAX);
        ensure!(pitch::MIN_SCORE_OFFSET == 0 && pitch::MAX_SCORE_OFFSET as i64 == pitch::MAX.score_offset() as i64, "limits", "the staff limits are not those of the pitches");
    }
    case.sample(|| json!({"pitch": format!("{:?}", p)}));
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(case: &mut Case) -> R {
    let k = case.idx as i64 - 7;
    let key = match Key::ALL.iter().find(|x| x.offset() as i64 == k) {
        Some(x) => *x,
        None => return fail("keys", format!("no key with {} accidentals", k)),
    };
    ensure!(key.is_flat() == (k < 0) && key.is_sharp() == (k > 0), "kind", "key {} says flat {} sharp {}", k, key.is_flat(), key.is_sharp());
    ensure!(serde_json::from_str::<Key>(&k.to_string()).ok() == Some(key), "keys", "{} is not read as the key", k);
    let sharps = [3usize, 0, 4, 1, 5, 2, 6];
    let flats = [6usize, 2, 5, 1, 4, 0, 3];
    let named: Vec<usize> = if k > 0 { sharps[..k as usize].to_vec() } else { flats[..(-k) as usize].to_vec() };
    case.at(|| format!("key {}: alters {:?}", k, named));
    for s in 0..7 {
        for o in 0..11 {
            for f in 0..6 {
                let Ok(p) = Pitch::value_of(Solfa::ALL[s], Octave::ALL[o], SHARP_FLATS[f]) else { continue };
                case.eval();
                let altered = f == 0 && named.contains(&s);
                let pos = s as i64 + 7 * o as i64;
                let want = ref_at(pos, if altered { if k > 0 { 1 } else { 3 } } else { f });
                want_pitch("applying the key", p, caught(|| p.apply_key(key)), want)?;
                if altered {
                    case.count("altered", 1);
                    case.nontrivial(sig((k, s, o)));
                }
                if want.is_none() {
                    case.count("altered pitch out of range", 1);
                }
            }
        }
    }
    case.sample(|| json!({"key": k, "alters": named}));
    Ok(())
}

// ---------------------------------------------------------------- C20

fn h(x: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn parts(r: &mut Rng) -> [i16; 4] {
    [gen::i16_any(r), gen::i16_any(r), gen::i16_any(r), gen::i16_any(r)]
}

fn trimmer_monitor(case: &mut Case) -> R {
    let v = parts(&mut case.rng);
    let sum: i64 = v.iter().map(|x| *x as i64).sum();
    case.at(|| format!("trimmer {:?}", v));
    let a = caught(|| Trimmer::new(v[0], v[1], v[2], v[3]));
    let other = parts(&mut case.rng);
    let at = case.rng.usize(4);
    let js = json!({ "values": v }).to_string();
    let ways: Vec<(&str, Result<Trimmer, String>)> = vec![
        ("new", a),
        ("from_array", caught(|| Trimmer::from_array(v))),
        ("from_vec", caught(|| Trimmer::from_vec(&v.to_vec()))),
        ("updated", caught(|| Trimmer::from_array(other).updated(|x| *x = v))),
        ("updated in one part", caught(|| {
            let mut w = v;
            w[at] = other[at];
            Trimmer::from_array(w).updated(|x| x[at] = v[at])
        })),
        ("deserialised (JSON)", caught(|| serde_json::from_str::<Trimmer>(&js).unwrap())),
        ("deserialised (binary)", caught(|| bincode::deserialize::<Trimmer>(&bincode::serialize(&Trimmer::from_array(v)).unwrap()).unwrap())),
        ("adding nothing", caught(|| Trimmer::from_array(v).added(0))),
    ];
    let mut all = vec![];
    for (name, t) in ways {
        case.eval();
        let t = match t {
            Ok(t) => t,
            Err(p) => return fail("trimmer crash", format!("{} of {:?} crashed: {}", name, v, p)),
        };
        ensure!(t.to_array() == v && t.to_vec() == v && t.values() == v && (0..4).all(|i| t.value(i) == v[i] as i32), "parts", "{} of {:?} has the parts {:?}", name, v, t);
        ensure!(t.sum() as i64 == sum, "total", "{} of {:?} has the total {}, expected {}", name, v, t.sum(), sum);
        all.push((name, t));
    }
    for (name, t) in &all {
        ensure!(*t == all[0].1 && h(t) == h(&all[0].1), "equality", "{} of {:?} differs from new: {:?}", name, v, t);
    }
    // adding
    let d = match case.rng.below(4) {
        0 => any_i32(&mut case.rng),
        1 => case.rng.range(-140_000, 140_000) as i32,
        2 => case.rng.range(-40_000, 40_000) as i32,
        _ => case.rng.range(-300, 300) as i32,
    };
    case.eval();
    let t = match caught(|| all[0].1.added(d)) {
        Ok(t) => t,
        Err(p) => return fail("added crash", format!("adding {} to {:?} crashed: {}", d, v, p)),
    };
    let now: i64 = t.values().iter().map(|x| *x as i64).sum();
    ensure!(now == t.sum() as i64, "total", "after adding {} to {:?} the total is {} of {:?}", d, v, t.sum(), t.values());
    if now != sum + d as i64 {
        let limit = if d > 0 { i16::MAX } else { i16::MIN };
        ensure!(t.values().iter().all(|x| *x == limit), "added", "adding {} to {:?} gives {:?}", d, v, t.values());
        case.count("additions saturating all four parts", 1);
    } else {
        case.count("additions exact", 1);
    }
    case.nontrivial(sig((v, d)));
    Ok(())
}

fn rate_monitor(case: &mut Case) -> R {
    let r = &mut case.rng;
    let v: [u16; 4] = match r.below(4) {
        0 => [r.range(0, 2000) as u16, r.range(0, 2000) as u16, r.range(0, 2000) as u16, r.range(0, 2000) as u16],
        1 => {
            let mut v = [1000u16; 4];
            v[r.usize(4)] = r.range(0, 2000) as u16;
            v[r.usize(4)] = r.range(0, 2000) as u16;
            v
        }
        2 => [*r.pick(&[2000u16, 1999, 1001, 1500]), *r.pick(&[2000u16, 1999, 1001, 1333]), *r.pick(&[2000u16, 500, 666, 750]), *r.pick(&[0u16, 1, 2000, 1000])],
        _ => [r.range(900, 1100) as u16, r.range(900, 1100) as u16, r.range(900, 1100) as u16, r.range(900, 1100) as u16],
    };
    case.at(|| format!("rates {:?}", v));
    let exact = v.iter().map(|x| *x as f64).product::<f64>() / 1e9;
    let want = exact.min(2000.0);
    let pc = [PercentU16::from_value(v[0]), PercentU16::from_value(v[1]), PercentU16::from_value(v[2]), PercentU16::from_value(v[3])];
    let js = json!({"values": v.iter().map(|x| json!({"value": x})).collect::<Vec<_>>()}).to_string();
    let fs: Vec<f32> = v.iter().map(|x| *x as f32 / 1000.0).collect();
    let ways: Vec<(&str, Result<RateTrimmer, String>)> = vec![
        ("new", caught(|| RateTrimmer::new(fs[0], fs[1], fs[2], fs[3]))),
        ("from_array", caught(|| RateTrimmer::from_array(pc))),
        ("from_vec", caught(|| RateTrimmer::from_vec(&pc.to_vec()))),
        ("deserialised (JSON)", caught(|| serde_json::from_str::<RateTrimmer>(&js).unwrap())),
        ("deserialised (binary)", caught(|| bincode::deserialize::<RateTrimmer>(&bincode::serialize(&RateTrimmer::from_array(pc)).unwrap()).unwrap())),
    ];
    let mut first: Option<RateTrimmer> = None;
    for (name, t) in ways {
        case.eval();
        let t = match t {
            Ok(t) => t,
            Err(p) => return fail("rate crash", format!("{} of {:?} crashed: {}", name, v, p)),
        };
        ensure!(t.values() == pc && t.to_vec() == pc && (0..4).all(|i| permille(t.value(i)) == v[i] as i64), "rate parts", "{} of {:?} permille has the parts {:?}", name, v, t);
        let sum = permille(t.sum());
        ensure!((sum as f64 - want).abs() <= 0.501, "rate total", "{} of {:?} permille has the total {} permille, expected {}", name, v, sum, want);
        let ticks = case.rng.range(0, 3840) as u32;
        let len = t.apply(ticks);
        ensure!(len as i64 == ticks as i64 * sum / 1000, "rate applied", "{} ticks scaled by {} permille are {}", ticks, sum, len);
        match first {
            None => first = Some(t),
            Some(f) => {
                ensure!(sum == permille(f.sum()), "rate total", "equal parts {:?} have the totals {} (new) and {} ({})", v, permille(f.sum()), sum, name);
                ensure!(t == f, "rate equality", "{} of {:?} differs from new", name, v);
            }
        }
    }
    if exact > 2000.0 {
        case.count("rate products limited to 200 percent", 1);
    }
    case.nontrivial(sig(v));
    Ok(())
}

fn note_monitor(case: &mut Case) -> R {
    let r = &mut case.rng;
    let base = match r.below(4) {
        0 => r.range(0, 400) as u32,
        1 => r.range(0, 140_000) as u32,
        2 => 240 * r.below(400) as u32,
        _ => r.range(0, u32::MAX as i64 - 140_000) as u32,
    };
    let wild = r.chance(1, 2);
    let (st, vt) = (gen::trimmer(r, wild), gen::trimmer(r, wild));
    let n = Note::new(base, gen::pitch(r), gen::duration(r), r.chance(1, 2), r.chance(1, 2), gen::velocity(r), st, gen::rate(r), vt, gen::channel(r));
    case.at(|| format!("{:?}", n));
    case.evals(4);
    let (s, l, v, b) = match caught(|| (n.start_tick(), n.tick_len(), n.velocity(), n.duration.tick_length())) {
        Ok(x) => x,
        Err(p) => return fail("note crash", format!("evaluating {:?} crashed: {}", n, p)),
    };
    ensure!(s == ref_start(&n), "start", "{:?} starts at {}, expected {}", n, s, ref_start(&n));
    let rc = Rc::new(n.clone());
    ensure!(HaveStartTick::start_tick(&rc) == s && HaveStartTick::start_tick(&n) == s && rc.base_start_tick() == base && HaveBaseStartTick::base_start_tick(&n) == base, "start", "the start seen through the item interface differs for {:?}", n);
    ensure!(b == ref_nominal(n.duration), "nominal length", "{:?} lasts {}, expected {}", n.duration, b, ref_nominal(n.duration));
    let rate = (0..4).map(|i| permille(n.duration_trimmer.value(i)) as f64).product::<f64>() / 1e9;
    let want = (b as f64 * rate.min(2000.0) / 1000.0, b as f64 / 1000.0 * 0.502 + 1.0);
    ensure!((l as f64 - want.0).abs() <= want.1, "length", "{:?} sounds for {} ticks, expected about {}", n, l, want.0);
    ensure!(l as i64 == b as i64 * permille(n.duration_trimmer.sum()) / 1000, "length", "{:?} sounds for {} ticks, nominal {} at {} permille", n, l, b, permille(n.duration_trimmer.sum()));
    let vs = n.base_velocity.as_u8() as i64 + (0..4).map(|i| n.velocity_trimmer.value(i) as i64).sum::<i64>();
    ensure!(v.as_u8() as i64 == vs.clamp(0, 127), "velocity", "{:?} has the velocity {}, expected {}", n, v.as_u8(), vs.clamp(0, 127));
    ensure!(n.base_velocity() == n.base_velocity, "velocity", "base_velocity differs");
    if base as i64 + (n.start_tick_trimmer.sum() as i64) < 0 {
        case.count("starts held at zero", 1);
    }
    if vs != vs.clamp(0, 127) {
        case.count("velocities limited", 1);
    }
    let longest = *Note::LONGEST_TICK_LEN;
    ensure!(l <= longest, "longest", "{:?} sounds for {} ticks, longer than the longest note {}", n, l, longest);
    case.nontrivial(sig(note_rec(&n)));
    case.sample(|| json!({"note": format!("{:?}", n), "start": s, "length": l, "velocity": v.as_u8()}));
    Ok(())
}

fn c20(case: &mut Case) -> R {
    if case.idx == 0 {
        // every duration
        for n in NUMERATORS {
            for dots in 0..8 {
                for den in 2..=255u8 {
                    let d = Duration::new(n, duration::Denominator::from_value(den).unwrap(), Dots::from_value(dots).unwrap());
                    case.eval();
                    let got = caught(|| d.tick_length());
                    ensure!(got == Ok(ref_nominal(d)), "nominal length", "{:?} lasts {:?}, expected {}", d, got, ref_nominal(d));
                    ensure!(d.tick_length() as i64 <= Duration::MAX_TICK_LENGTH as i64, "longest", "{:?} lasts {}, longer than the published longest {}", d, d.tick_length(), Duration::MAX_TICK_LENGTH);
                    let e = gen::duration(&mut case.rng);
                    let m = d.min(e);
                    ensure!((m == d || m == e) && m.tick_length() == ref_nominal(d).min(ref_nominal(e)), "shorter", "the shorter of {:?} and {:?} is {:?}", d, e, m);
                    ensure!(d.with_numerator(e.numerator) == Duration { numerator: e.numerator, ..d } && d.with_denominator(e.denominator) == Duration { denominator: e.denominator, ..d } && d.with_dots(e.dots) == Duration { dots: e.dots, ..d }, "with", "changing one part of {:?}", d);
                }
            }
        }
        case.count("durations", 8 * 8 * 254);
        // every single rate, and its square
        for v in 0..=2000u16 {
            let p = PercentU16::from_value(v);
            for arr in [[p, PercentU16::HUNDRED, PercentU16::HUNDRED, PercentU16::HUNDRED], [PercentU16::HUNDRED, p, p, PercentU16::HUNDRED]] {
                case.eval();
                let t = RateTrimmer::from_array(arr);
                let want = (arr.iter().map(|x| permille(*x) as f64).product::<f64>() / 1e9).min(2000.0);
                ensure!((permille(t.sum()) as f64 - want).abs() <= 0.501, "rate total", "{:?} has the total {} permille, expected {}", arr, permille(t.sum()), want);
            }
        }
        return Ok(());
    }
    for _ in 0..40 {
        trimmer_monitor(case)?;
        rate_monitor(case)?;
        for _ in 0..3 {
            note_monitor(case)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// Written length in 1/2^15 of twice... the unit: a 128th with seven dots is still whole.
fn written(d: Duration) -> u64 {
    let base = 1u64 << (15 - num_no(d.numerator));
    base + (base - (base >> d.dots.value()))
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn c21(case: &mut Case) -> R {
    if case.idx % 20_000 == 13 {
        case.count("selections of more than 65536 notes", 1);
        return one_tuplet(case, true);
    }
    for _ in 0..40 {
        one_tuplet(case, false)?;
    }
    Ok(())
}

fn one_tuplet(case: &mut Case, giant: bool) -> R {
    let r = &mut case.rng;
    // Lengths whose dots divide into whole 256ths, so that "the greatest common unit" is not in doubt.
    let exact = r.chance(4, 5);
    // (chords of that many notes, or that many chords)
    let crowded = r.chance(3, 4);
    let groups = match r.below(8) {
        _ if giant => if crowded { r.range(2, 4) as usize } else { 66_000 },
        0 => 1,
        1 => r.range(1, 40) as usize,
        2 if r.chance(1, 8) => r.range(100, 300) as usize,
        _ => r.range(2, 9) as usize,
    };
    let same = r.chance(1, 3);
    let (lo, hi) = *r.pick(&[(0, 7), (2, 4), (3, 3), (0, 2), (5, 7)]);
    let dur = |r: &mut Rng| {
        let n = NUMERATORS[r.range(lo, hi) as usize];
        let max = if exact { (8 - num_no(n)).min(7) } else { 7 };
        let dots = if r.chance(2, 3) { 0 } else { r.range(0, max) as u8 };
        let den = if r.chance(3, 4) { 2 } else { r.range(2, 255) as u8 };
        Duration::new(n, duration::Denominator::from_value(den).unwrap(), Dots::from_value(dots).unwrap())
    };
    let fixed = dur(r);
    let mut tick = match r.below(4) {
        0 => 0,
        1 => r.range(0, 100_000) as u32,
        2 => r.range(0, 3_000_000_000) as u32,
        _ => 240 * r.below(100) as u32,
    };
    let first = tick;
    let mut notes: Vec<Note> = vec![];
    for _ in 0..groups {
        let chord = if giant && crowded { r.range(60_000, 70_000) } else if r.chance(1, 3) { if r.chance(1, 60) { r.range(5, 300) } else { r.range(2, 4) } } else { 1 };
        let mut longest = 0;
        for _ in 0..chord {
            let d = if same { fixed } else { dur(r) };
            let wild = r.chance(1, 4);
            notes.push(Note::new(tick, gen::pitch(r), d, r.chance(1, 8), r.chance(1, 8), gen::velocity(r), gen::trimmer(r, wild), gen::rate(r), gen::trimmer(r, wild), gen::channel(r)));
            longest = longest.max(ref_nominal(d));
        }
        tick += if r.chance(1, 2) && !(giant && !crowded) { longest.max(1) } else { r.range(1, 2000) as u32 };
    }
    if !giant && r.chance(1, 10) {
        notes.clear();
    }
    if r.chance(1, 2) {
        r.shuffle(&mut notes);
    }
    let give: Vec<Rc<Note>> = notes.iter().map(|n| Rc::new(n.clone())).collect();
    case.at(|| format!("{:?}", notes));
    case.eval();
    let got = match caught(|| tuplize(give.clone())) {
        Ok(g) => g,
        Err(p) => return fail("crash", format!("a tuplet of {:?} crashed: {}", notes, p)),
    };
    let got: Vec<Note> = got.iter().map(|n| (**n).clone()).collect();
    for (g, n) in give.iter().zip(&notes) {
        ensure!(**g == *n, "given notes", "the notes given were changed in place");
    }
    ensure!(got.len() == notes.len(), "count", "{} notes became {}: {:?}", notes.len(), got.len(), notes);
    if notes.is_empty() {
        case.count("empty selections", 1);
        return Ok(());
    }
    // everything but start and divisor, in order of the original starts
    let strip = |n: &Note| {
        let mut m = n.clone();
        m.base_start_tick = 0;
        m.duration = m.duration.with_denominator(duration::Denominator::default());
        note_rec(&m)
    };
    let mut order: Vec<usize> = (0..notes.len()).collect();
    order.sort_by_key(|i| notes[*i].base_start_tick);
    // the groups and their shortest written lengths
    let mut starts: Vec<(u32, u64, u64)> = vec![]; // start, units, ticks
    for i in &order {
        let n = &notes[*i];
        let (w, t) = (written(n.duration), ref_nominal(n.duration.with_denominator(duration::Denominator::default())) as u64);
        match starts.last_mut() {
            Some(l) if l.0 == n.base_start_tick => {
                if w < l.1 {
                    l.1 = w;
                    l.2 = t;
                }
            }
            _ => starts.push((n.base_start_tick, w, t)),
        }
    }
    let unit = notes.iter().map(|n| written(n.duration)).fold(0, gcd);
    let total: u64 = starts.iter().map(|s| s.1).sum();
    let total_ticks: u64 = starts.iter().map(|s| s.2).sum();
    let divisor = total / unit;
    let unchanged = {
        let key = |v: &[Note]| {
            let mut k: Vec<Rec> = v.iter().map(note_rec).collect();
            k.sort();
            k
        };
        key(&got) == key(&notes)
    };
    if exact && (divisor < 2 || divisor > 255) {
        ensure!(unchanged, "unchanged", "{} units (divisor {}) of {:?} were changed to {:?}", total / unit, divisor, notes, got);
        case.count(if divisor < 2 { "selections of fewer than two units" } else { "divisors that do not exist" }, 1);
        return Ok(());
    }
    if !exact && unchanged {
        return Ok(());
    }
    // bag of the notes with new starts: match per original group
    let mut rest: Vec<Note> = got.clone();
    let mut new_starts: Vec<u32> = vec![];
    let mut dens: Vec<u8> = got.iter().map(|n| n.duration.denominator.value()).collect();
    dens.dedup();
    ensure!(dens.len() == 1, "divisor", "the notes have different divisors {:?}: {:?}", dens, got);
    if exact {
        ensure!(dens[0] as u64 == divisor, "divisor", "the divisor is {}, expected {} for {:?}", dens[0], divisor, notes);
    }
    let mut got_starts: Vec<u32> = got.iter().map(|n| n.base_start_tick).collect();
    got_starts.sort();
    ensure!(got_starts[0] == first, "first start", "the first start {} became {}", first, got_starts[0]);
    // Notes of one group must be found together at one new start, the groups in order.  The
    // result is ordered by start, so the groups can be read off it in order.
    rest.sort_by_key(|n| n.base_start_tick);
    let mut k = 0;
    for (start, _, _) in &starts {
        let mut mine: Vec<Rec> = notes.iter().filter(|n| n.base_start_tick == *start).map(strip).collect();
        mine.sort();
        let m = mine.len();
        let slice = &rest[k..k + m];
        // several groups may share a new start when the units are tiny; then only the bag at that start is told
        let t = slice[0].base_start_tick;
        let crowd = rest.iter().filter(|n| n.base_start_tick == t).count();
        if crowd == m {
            let mut theirs: Vec<Rec> = slice.iter().map(strip).collect();
            theirs.sort();
            ensure!(theirs == mine, "attributes", "the notes starting at {} became {:?}: {:?} -> {:?}", start, t, notes, got);
        }
        ensure!(slice.iter().all(|n| n.base_start_tick == t), "together", "the notes starting at {} no longer start together: {:?} -> {:?}", start, notes, got);
        new_starts.push(t);
        k += m;
    }
    let mut a: Vec<Rec> = notes.iter().map(strip).collect();
    let mut b: Vec<Rec> = got.iter().map(strip).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "attributes", "more than start and divisor changed: {:?} -> {:?}", notes, got);
    if exact {
        let d = divisor as f64;
        let compressed = total_ticks as f64 * 2.0 / d;
        let mut u = 0u64;
        for (i, s) in starts.iter().enumerate() {
            let want = first as f64 + compressed * u as f64 / total as f64;
            ensure!((new_starts[i] as f64 - want).abs() <= 3.0, "spacing", "the group starting at {} now starts at {}, expected about {} (divisor {}): {:?} -> {:?}", s.0, new_starts[i], want, divisor, notes, got);
            u += s.1;
        }
        case.count("tuplets placed", 1);
        case.nontrivial(sig(starts.iter().map(|s| s.1).collect::<Vec<_>>()));
        case.sample(|| json!({"starts": starts.iter().map(|s| s.0).collect::<Vec<_>>(), "divisor": divisor, "new starts": new_starts}));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn ref_snap(g: i64, t: i64) -> i64 {
    // nearest multiple, ties away from zero
    let (g, a) = (g as i128, (t as i128).abs());
    let down = a / g * g;
    let up = down + g;
    let m = if up - a <= a - down { up } else { down };
    (if t < 0 { -m } else { m }) as i64
}

fn c22(case: &mut Case) -> R {
    let g = match case.idx % 4 {
        0 => 1 + (case.idx / 4) as u32 % 2000,
        1 => *case.rng.pick(&[1, 2, 3, 5, 7, 15, 30, 60, 120, 240, 480, 960, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1]),
        2 => case.rng.range(1, 5000) as u32,
        _ => case.rng.range(1, u32::MAX as i64) as u32,
    };
    let grid = match Grid::from_u32(g) {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("grid {} is refused: {:?}", g, e)),
    };
    ensure!(grid.as_u32() == g && grid.to_string() == g.to_string(), "grid", "grid {} says {} and {}", g, grid.as_u32(), grid.to_string());
    ensure!(Grid::value_of(&g.to_string()) == Ok(grid), "text", "grid {} cannot be made from its text", g);
    let gi = g as i64;
    let mut ticks: Vec<i64> = (-200i64..=200).collect();
    for _ in 0..120 {
        let k = match case.rng.below(4) {
            0 => case.rng.range(-5, 5),
            1 => case.rng.range(-1000, 1000),
            2 => case.rng.range(0, (1i64 << 32) / gi + 1),
            _ => case.rng.range(-((1i64 << 61) / gi), (1i64 << 61) / gi),
        };
        let d = match case.rng.below(4) {
            0 => gi / 2 + case.rng.range(-2, 2),
            1 => case.rng.range(-2, 2),
            2 => (gi + 1) / 2,
            _ => case.rng.range(0, gi),
        };
        let t = k * gi + d;
        ticks.push(t);
        ticks.push(-t);
    }
    ticks.sort();
    case.at(|| format!("grid {}", g));
    let mut prev: Option<(i64, i64)> = None;
    for t in ticks {
        case.eval();
        let s = match caught(|| grid.snap(t)) {
            Ok(s) => s,
            Err(p) => return fail("crash", format!("snapping {} to {} crashed: {}", t, g, p)),
        };
        ensure!(s % gi == 0, "multiple", "{} snapped to {} is {}, no multiple", t, g, s);
        ensure!(s == ref_snap(gi, t), "nearest", "{} snapped to {} is {}, expected {}", t, g, s, ref_snap(gi, t));
        ensure!(grid.snap(s) == s, "idempotent", "{} on the grid {} snaps to {}", s, g, grid.snap(s));
        ensure!(grid.snap(-t) == -s, "mirror", "{} snaps to {} but {} to {} (grid {})", t, s, -t, grid.snap(-t), g);
        if let Some((pt, ps)) = prev {
            ensure!(ps <= s, "order", "{} <= {} but snapped to {} they are {} and {}", pt, t, g, ps, s);
        }
        if (t.abs() % gi) * 2 == gi {
            case.count("ties", 1);
        }
        prev = Some((t, s));
        if s != t {
            case.nontrivial(sig((g, t)));
        }
    }
    // what is not a grid
    ensure!(Grid::from_u32(0).is_err(), "zero", "a grid of zero was made");
    let r = &mut case.rng;
    let base = ["", " ", "0", "00", "-1", "-0", "+0", "+", "-", "1.5", "1e3", "0x10", "abc", "6O", "60 ", " 60", "６０", "4294967296", "99999999999999999999", "NaN", "1_000", "\u{0}", "60\n"];
    let mut texts: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    for _ in 0..10 {
        texts.push(number_text(r));
    }
    for t in texts {
        case.eval();
        let got = match caught(|| Grid::value_of(&t)) {
            Ok(x) => x,
            Err(p) => return fail("crash", format!("a grid from {:?} crashed: {}", t, p)),
        };
        let plain = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
        match got {
            Ok(x) => {
                let digits = t.strip_prefix('+').unwrap_or(&t);
                let v = digits.parse::<u128>().ok().filter(|_| digits.bytes().all(|b| b.is_ascii_digit()));
                ensure!(x.as_u32() != 0 && v == Some(x.as_u32() as u128), "text", "{:?} makes a grid of {}", t, x.as_u32());
            }
            Err(_) => {
                let fits = plain && t.trim_start_matches('0').len() <= 10 && matches!(t.parse::<u64>(), Ok(v) if v >= 1 && v <= u32::MAX as u64);
                ensure!(!fits, "text", "{:?} is refused as a grid", t);
            }
        }
    }
    for js in ["{\"value\":0}", "{\"value\":-1}", "{\"value\":4294967296}", "{\"value\":1.5}", "{\"value\":\"60\"}"] {
        let got = caught(|| serde_json::from_str::<Grid>(js).is_ok());
        ensure!(got == Ok(false), "stored", "{} is read as a grid: {:?}", js, got);
    }
    case.sample(|| json!({"grid": g}));
    Ok(())
}

// ---------------------------------------------------------------- C23

fn number_text(r: &mut Rng) -> String {
    let special = [
        "0", "1", "2", "9", "10", "98", "99", "100", "119", "120", "126", "127", "128", "129", "199", "254", "255", "256", "257", "512", "998", "999", "1000", "1001", "2000", "2001",
        "32766", "32767", "32768", "32769", "65534", "65535", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999999", "00", "007", "0000000000000000000000000000120", "00000000000000000000001:00000000000000000000002",
    ];
    let digits = match r.below(6) {
        0 | 1 => r.pick(&special).to_string(),
        2 => r.range(0, 70_000).to_string(),
        3 => r.range(0, 1100).to_string(),
        4 => r.range(0, 300).to_string(),
        _ => {
            let n = r.range(1, 45);
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        }
    };
    let sign = match r.below(8) {
        0 => "-",
        1 => "+",
        2 if r.chance(1, 3) => "--",
        _ => "",
    };
    format!("{}{}", sign, digits)
}

fn typed(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1..=4 => number_text(r),
        5 => format!("{}:{}", number_text(r), number_text(r)),
        6 => format!("{}.{}", number_text(r), r.below(100_000)),
        7 => r.pick(&["nan", "NaN", "-nan", "inf", "-inf", "infinity", "+inf", "1e40", "-1e40", "1e-50", "1e5", "2e0", ".5", "5.", ".", "1.9995", "1.99951", "0.0005", "0.00049", "2.0004", "2.0000001", "0.1", "0.7", "-0.0", "1e-3", "3.4e39", "e5", "1e"]).to_string(),
        8 => r.pick(&["", " ", ":", "1:", ":1", "1:2:3", "1::2", " 1:2", "1:2 ", "1 :2", "-1:2", "1:-2", "+1:+2", "１:２", "٣:٤", "1:2\n", "\n", "a:b", "0:0", "00:00", "1;2", "1.0:2"]).to_string(),
        9 => {
            let s = number_text(r);
            let mut c: Vec<char> = s.chars().collect();
            let at = r.usize(c.len() + 1);
            c.insert(at, *r.pick(&[' ', '-', '+', '.', ',', '_', 'x', 'e', '\u{0}', '\t', '０', '٣', '½', 'é', '😀', '\u{202e}', ':']));
            c.into_iter().collect()
        }
        10 => {
            let n = r.below(12);
            (0..n).map(|_| *r.pick(&['0', '1', '9', '2', '5', ':', '.', '-', '+', 'e', ' ', 'n', 'a', 'i', 'f', '１', '😀'])).collect()
        }
        _ => {
            let n = r.below(8);
            (0..n).filter_map(|_| char::from_u32(r.below(0x11_0000) as u32)).collect()
        }
    }
}

/// The integer a text plainly denotes: an optional sign and ASCII digits.
fn plain_int(s: &str) -> Option<(bool, i128)> {
    let (neg, sign, d) = match s.as_bytes().first()? {
        b'-' => (true, true, &s[1..]),
        b'+' => (false, true, &s[1..]),
        _ => (false, false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let d = d.trim_start_matches('0');
    let v: i128 = if d.len() > 36 { i128::MAX / 2 } else { format!("0{}", d).parse().ok()? };
    Some((sign, if neg { -v } else { v }))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Seen {
    None,
    Int(i64),
    Error,
    Loc(usize, usize),
}

trait Field: 'static {
    const NAME: &'static str;
    const LO: i64;
    const HI: i64;
    type T;
    type E;
    fn int(t: &Self::T) -> i64;
}

macro_rules! field {
    ($f:ident, $name:expr, $t:ty, $e:ty, $lo:expr, $hi:expr, $int:expr) => {
        struct $f;
        impl Field for $f {
            const NAME: &'static str = $name;
            const LO: i64 = $lo;
            const HI: i64 = $hi;
            type T = $t;
            type E = $e;
            fn int(t: &$t) -> i64 {
                let f: fn(&$t) -> i64 = $int;
                f(t)
            }
        }
    };
}

field!(Offset, "offset", i16, std::num::ParseIntError, -32768, 32767, |t| *t as i64);
field!(TempoF, "tempo", TempoValue, std::num::ParseIntError, 1, 999, |t| t.as_u16() as i64);
field!(VelocityF, "velocity", Velocity, std::num::ParseIntError, 0, 127, |t| t.as_u8() as i64);
field!(NumeratorF, "rhythm numerator", rhythm::Numerator, rhythm::NumeratorError, 1, 99, |t| t.value() as i64);
field!(DivisorF, "tuplet divisor", duration::Denominator, klavier_core::text_input::DurationDenominatorError, 2, 255, |t| t.value() as i64);

fn seen_int<F: Field>(v: &Result<Validated<Option<F::T>>, F::E>) -> Seen {
    match v {
        Ok(Validated(None)) => Seen::None,
        Ok(Validated(Some(t))) => Seen::Int(F::int(t)),
        Err(_) => Seen::Error,
    }
}

fn judge_int<F: Field>(text: &str, s: Seen) -> R {
    let key = |k: &str| format!("{} {}", F::NAME, k);
    if text.is_empty() {
        ensure!(s == Seen::None, key("empty"), "empty {} text gives {:?}", F::NAME, s);
        return Ok(());
    }
    let num = plain_int(text);
    match s {
        Seen::None => fail(key("none"), format!("{} text {:?} gives no value", F::NAME, text)),
        Seen::Int(v) => match num {
            None => fail(key("not a number"), format!("{} text {:?} gives {}", F::NAME, text, v)),
            Some((_, n)) => {
                ensure!(v as i128 == n.clamp(F::LO as i128, F::HI as i128), key("value"), "{} text {:?} gives {}", F::NAME, text, v);
                Ok(())
            }
        },
        _ => {
            if let Some((false, n)) | Some((true, n @ ..=-1)) = num {
                ensure!(!(F::LO as i128..=F::HI as i128).contains(&n), key("refused"), "{} text {:?} is refused", F::NAME, text);
            }
            Ok(())
        }
    }
}

fn judge_percent(text: &str, s: Seen) -> R {
    if text.is_empty() {
        ensure!(s == Seen::None, "percent empty", "empty percentage text gives {:?}", s);
        return Ok(());
    }
    let num: Option<f64> = text.parse::<f64>().ok();
    match s {
        Seen::None => fail("percent none", format!("percentage text {:?} gives no value", text)),
        Seen::Int(v) => match num {
            None => fail("percent not a number", format!("percentage text {:?} gives {} permille", text, v)),
            Some(x) if x.is_nan() => {
                ensure!((0..=2000).contains(&v), "percent value", "percentage text {:?} gives {} permille", text, v);
                Ok(())
            }
            Some(x) => {
                let want = (x * 1000.0).clamp(0.0, 2000.0);
                ensure!((v as f64 - want).abs() <= 0.501, "percent value", "percentage text {:?} gives {} permille, expected {}", text, v, want);
                Ok(())
            }
        },
        _ => {
            let plain = text.bytes().all(|b| b.is_ascii_digit() || b == b'.') && text.as_bytes()[0].is_ascii_digit() && text.bytes().last().unwrap().is_ascii_digit() && text.matches('.').count() <= 1;
            let inside = matches!(num, Some(x) if (0.0..=2.0).contains(&x));
            ensure!(!(plain && inside), "percent refused", "percentage text {:?} is refused", text);
            Ok(())
        }
    }
}

fn judge_location(text: &str, s: Seen) -> R {
    if text.is_empty() {
        ensure!(s == Seen::None, "location empty", "empty location text gives {:?}", s);
        return Ok(());
    }
    let parts: Option<(u128, u128)> = text.split_once(':').and_then(|(a, b)| match (plain_int(a), plain_int(b)) {
        (Some((false, a)), Some((false, b))) => Some((a as u128, b as u128)),
        _ => None,
    });
    match s {
        Seen::None => fail("location none", format!("location text {:?} gives no value", text)),
        Seen::Loc(a, b) => {
            ensure!(parts == Some((a as u128, b as u128)), "location value", "location text {:?} gives {}:{}", text, a, b);
            Ok(())
        }
        _ => {
            ensure!(!matches!(parts, Some((a, b)) if a <= usize::MAX as u128 && b <= usize::MAX as u128), "location refused", "location text {:?} is refused", text);
            Ok(())
        }
    }
}

/// A random change to the text, as an editor field makes them; returns what the mutator returns.
fn edit_text(r: &mut Rng) -> Box<dyn Fn(&mut String) -> usize> {
    let t = typed(r);
    let pos = r.u32() as usize;
    match r.below(7) {
        0 => Box::new(move |s: &mut String| {
            s.clear();
            s.push_str(&t);
            s.len()
        }),
        1 => Box::new(|s: &mut String| {
            s.pop();
            s.len()
        }),
        2 => {
            let c = *r.pick(&['0', '1', '9', '5', ':', '.', '-', ' ', '１']);
            Box::new(move |s: &mut String| {
                s.push(c);
                s.len()
            })
        }
        3 => {
            let c = *r.pick(&['0', '1', '9', '2', ':', '-', 'x']);
            Box::new(move |s: &mut String| {
                let mut at = pos % (s.len() + 1);
                while !s.is_char_boundary(at) {
                    at -= 1;
                }
                s.insert(at, c);
                s.len()
            })
        }
        4 => Box::new(|s: &mut String| {
            s.clear();
            0
        }),
        5 => Box::new(|s: &mut String| s.len()),
        _ => Box::new(move |s: &mut String| {
            if let Some(at) = s.char_indices().nth(pos % 8).map(|x| x.0) {
                s.remove(at);
            }
            s.len()
        }),
    }
}

fn field_run<T, E>(case: &mut Case, name: &str, text: &str, edits: usize, seen: fn(&Result<Validated<T>, E>) -> Seen, judge: &dyn Fn(&str, Seen) -> R) -> R
where
    Validated<T>: FromStr<Err = E>,
{
    case.at(|| format!("{} field: {:?}", name, text));
    let mut f = match caught(|| TextInput::<T, E>::from_string(text.to_string())) {
        Ok(f) => f,
        Err(p) => return fail(format!("{} crash", name), format!("{} text {:?} crashed: {}", name, text, p)),
    };
    case.eval();
    ensure!(f.input() == text, "buffer", "the field shows {:?} instead of {:?}", f.input(), text);
    judge(text, seen(f.validate()))?;
    let direct = match caught(|| klavier_core::text_input::from_str::<T, E>(text)) {
        Ok(d) => seen(&d),
        Err(p) => return fail(format!("{} crash", name), format!("{} text {:?} crashed: {}", name, text, p)),
    };
    ensure!(direct == seen(f.validate()), "stale", "{} text {:?}: the field says {:?}, the validation {:?}", name, text, seen(f.validate()), direct);
    let mut model = text.to_string();
    for _ in 0..edits {
        let e = edit_text(&mut case.rng);
        let before = model.clone();
        let want_ret = e(&mut model);
        let got = match caught(|| f.mutate(|s| e(s))) {
            Ok(g) => g,
            Err(p) => return fail(format!("{} crash", name), format!("changing {} text {:?} to {:?} crashed: {}", name, before, model, p)),
        };
        case.eval();
        ensure!(got == want_ret, "mutate", "mutate returned {} instead of {}", got, want_ret);
        ensure!(f.input() == model, "buffer", "after changing {:?} the field shows {:?} instead of {:?}", before, f.input(), model);
        judge(&model, seen(f.validate()))?;
        let direct = match caught(|| klavier_core::text_input::from_str::<T, E>(&model)) {
            Ok(d) => seen(&d),
            Err(p) => return fail(format!("{} crash", name), format!("{} text {:?} crashed: {}", name, model, p)),
        };
        ensure!(direct == seen(f.validate()), "stale", "{} text changed from {:?} to {:?}: the field says {:?}, the validation {:?}", name, before, model, seen(f.validate()), direct);
        match direct {
            Seen::None => case.count("no value", 1),
            Seen::Error => case.count("errors", 1),
            _ => case.count("values", 1),
        }
        if direct != Seen::Error {
            case.nontrivial(sig((name, &model)));
        }
    }
    Ok(())
}

fn c23(case: &mut Case) -> R {
    use klavier_core::text_input::*;
    if case.idx < 64 {
        // every integer text around the ranges, in every field, in slices
        let lo = -1200 + (case.idx as i64) * 40;
        for v in lo..lo + 40 {
            let t = v.to_string();
            all_fields(case, &t, 0)?;
        }
        for v in (case.idx as i64 * 1100)..(case.idx as i64 * 1100 + 1100) {
            let t = v.to_string();
            field_run::<Option<i16>, _>(case, Offset::NAME, &t, 0, seen_int::<Offset>, &judge_int::<Offset>)?;
            field_run::<Option<i16>, _>(case, Offset::NAME, &format!("-{}", t), 0, seen_int::<Offset>, &judge_int::<Offset>)?;
            field_run::<Option<TempoValue>, _>(case, TempoF::NAME, &t, 0, seen_int::<TempoF>, &judge_int::<TempoF>)?;
        }
        for v in (case.idx * 40)..(case.idx * 40 + 40) {
            for t in [format!("{}.{:03}", v / 1000, v % 1000), format!("{}", v as f64 / 1000.0)] {
                field_run::<Option<PercentU16>, _>(case, "percent", &t, 0, seen_percent, &judge_percent)?;
            }
        }
        return Ok(());
    }
    let _ = LocationParseError::InvalidFormat;
    for _ in 0..25 {
        let t = typed(&mut case.rng);
        all_fields(case, &t, 3)?;
    }
    case.sample(|| json!({"fields": 7, "texts": 25}));
    Ok(())
}

fn seen_percent(v: &Result<Validated<Option<PercentU16>>, std::num::ParseFloatError>) -> Seen {
    match v {
        Ok(Validated(None)) => Seen::None,
        Ok(Validated(Some(t))) => Seen::Int(permille(*t)),
        Err(_) => Seen::Error,
    }
}

fn seen_location(v: &Result<Validated<Option<Location>>, klavier_core::text_input::LocationParseError>) -> Seen {
    match v {
        Ok(Validated(None)) => Seen::None,
        Ok(Validated(Some(t))) => Seen::Loc(t.bar_no(), t.offset()),
        Err(_) => Seen::Error,
    }
}

fn all_fields(case: &mut Case, t: &str, edits: usize) -> R {
    field_run::<Option<Location>, _>(case, "location", t, edits, seen_location, &judge_location)?;
    field_run::<Option<i16>, _>(case, Offset::NAME, t, edits, seen_int::<Offset>, &judge_int::<Offset>)?;
    field_run::<Option<TempoValue>, _>(case, TempoF::NAME, t, edits, seen_int::<TempoF>, &judge_int::<TempoF>)?;
    field_run::<Option<Velocity>, _>(case, VelocityF::NAME, t, edits, seen_int::<VelocityF>, &judge_int::<VelocityF>)?;
    field_run::<Option<rhythm::Numerator>, _>(case, NumeratorF::NAME, t, edits, seen_int::<NumeratorF>, &judge_int::<NumeratorF>)?;
    field_run::<Option<duration::Denominator>, _>(case, DivisorF::NAME, t, edits, seen_int::<DivisorF>, &judge_int::<DivisorF>)?;
    field_run::<Option<PercentU16>, _>(case, "percent", t, edits, seen_percent, &judge_percent)?;
    // the parser behind the location field, and what a location shows
    let p = match caught(|| (Location::parse(t), klavier_core::location::parse_location(t))) {
        Ok(p) => p,
        Err(e) => return fail("location crash", format!("parsing {:?} crashed: {}", t, e)),
    };
    let s = |l: Option<Location>| l.map(|l| Seen::Loc(l.bar_no(), l.offset())).unwrap_or(Seen::Error);
    if !t.is_empty() {
        judge_location(t, s(p.0))?;
        judge_location(t, s(p.1))?;
    }
    if let Some(l) = p.0 {
        ensure!(Location::parse(&l.to_string()) == Some(l), "location text", "location {:?} shows {:?}, which does not parse back", l, l.to_string());
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn undo_of(n: u64) -> Undo {
    Undo::Changed {
        added: Models { tempos: vec![Tempo::new(n as u32, (n % 999 + 1) as u16)], ..Models::empty() },
        removed: if n % 3 == 0 { Models::empty() } else { Models { dumpers: vec![CtrlChg::new(n as u32, Velocity::new((n % 128) as u8), Channel::new((n % 16) as u8))], ..Models::empty() } },
        metadata: if n % 2 == 0 { ModelChangeMetadata::new() } else { ModelChangeMetadata::new().with_need_select(n % 4 == 1) },
    }
}

fn c24(case: &mut Case) -> R {
    for _ in 0..8 {
        one_history(case)?;
    }
    Ok(())
}

fn one_history(case: &mut Case) -> R {
    let r = &mut case.rng;
    let default = r.chance(1, 10);
    let long = r.chance(1, 60);
    // more changes than 16 bits can count: recorded, taken back, brought back, ..
    let giant = case.idx % 30_000 == 13;
    let capacity = if giant {
        *r.pick(&[usize::MAX, 66_000, 70_000])
    } else if default {
        100
    } else if long && r.chance(2, 3) {
        r.range(200, 1200) as usize
    } else {
        match r.below(4) {
            0 => r.below(4) as usize,
            1 => r.range(1, 8) as usize,
            2 => r.range(1, 30) as usize,
            _ => {
                if r.chance(1, 4) {
                    usize::MAX
                } else {
                    r.range(90, 130) as usize
                }
            }
        }
    };
    let mut store = if default && !giant { UndoStore::default() } else { UndoStore::new(capacity) };
    // model: recorded changes oldest first, and how many of them are in effect
    let mut log: Vec<u64> = vec![];
    let mut pos = 0usize;
    let mut frozen = false;
    let mut next = 0u64;
    let steps = if giant { 212_060 } else if long { 3000 } else if r.chance(1, 5) { 400 } else { 80 };
    let (mut wa, mut wu, mut wr) = *r.pick(&[(5u64, 3u64, 2u64), (2, 4, 4), (8, 1, 1), (3, 5, 1)]);
    let (mut undone, mut dropped, mut trimmed) = (0u64, 0u64, 0u64);
    let mut hist = String::new();
    for i in 0..steps {
        case.eval();
        if giant {
            (wa, wu, wr) = if i < 72_000 { (u64::MAX / 2, 0, 0) } else if i < 142_000 { (0, 100_000, 0) } else if i < 212_000 { (0, 0, 100_000) } else { (3, 5, 1) };
        }
        let op = case.rng.below(wa + wu + wr + 1);
        if op < wa {
            next += 1;
            hist += &format!("add {} ", next);
            if let Err(p) = caught(|| store.add(undo_of(next))) {
                return fail("crash", format!("recording crashed: {} (capacity {}; {})", p, capacity, hist));
            }
            if !frozen {
                dropped += (log.len() - pos) as u64;
                log.truncate(pos);
                log.push(next);
                if log.len() > capacity {
                    trimmed += 1;
                    log.remove(0);
                }
                pos = log.len();
            }
        } else if op < wa + wu {
            hist += "undo ";
            let want = if pos > 0 { Some(undo_of(log[pos - 1])) } else { None };
            let offered = store.can_undo();
            let got = match caught(|| store.undo().cloned()) {
                Ok(g) => g,
                Err(p) => return fail("crash", format!("undo crashed: {} (capacity {}; {})", p, capacity, hist)),
            };
            ensure!(got == want, "undo", "undo gives {:?}, expected {:?} (capacity {}; {})", got, want, capacity, hist);
            ensure!(offered == got.is_some(), "offered", "undo offered {} but gives {:?} (capacity {}; {})", offered, got, capacity, hist);
            if want.is_some() {
                pos -= 1;
                undone += 1;
            }
        } else if op < wa + wu + wr {
            hist += "redo ";
            let want = if pos < log.len() { Some(undo_of(log[pos])) } else { None };
            let offered = store.can_redo();
            let got = match caught(|| store.redo().cloned()) {
                Ok(g) => g,
                Err(p) => return fail("crash", format!("redo crashed: {} (capacity {}; {})", p, capacity, hist)),
            };
            ensure!(got == want, "redo", "redo gives {:?}, expected {:?} (capacity {}; {})", got, want, capacity, hist);
            ensure!(offered == got.is_some(), "offered", "redo offered {} but gives {:?} (capacity {}; {})", offered, got, capacity, hist);
            if want.is_some() {
                pos += 1;
            }
        } else {
            frozen = case.rng.chance(1, 3);
            hist += if frozen { "freeze " } else { "thaw " };
            store.freeze(frozen);
        }
        if hist.len() > 4000 {
            hist = hist[hist.len() - 2000..].to_string();
        }
        ensure!(store.can_undo() == (pos > 0), "offered", "undo offered {} with {} of {} changes in effect (capacity {}; {})", store.can_undo(), pos, log.len(), capacity, hist);
        ensure!(store.can_redo() == (pos < log.len()), "offered", "redo offered {} with {} of {} changes in effect (capacity {}; {})", store.can_redo(), pos, log.len(), capacity, hist);
        ensure!(store.len() == log.len(), "length", "{} changes kept, expected {} (capacity {}; {})", store.len(), log.len(), capacity, hist);
        if case.idx % 16 == 0 && (!long || next % 64 == 0) || giant && (i % 50_000 == 0 || i == 212_059) {
            let kept: Vec<Undo> = store.iter().cloned().collect();
            let want: Vec<Undo> = log.iter().rev().map(|n| undo_of(*n)).collect();
            ensure!(kept == want, "kept", "the changes kept (newest first) are {:?}, expected {:?} (capacity {}; {})", kept, want, capacity, hist);
        }
    }
    case.count("undone", undone);
    case.count("dropped by a new change", dropped);
    case.count("dropped by the capacity", trimmed);
    if undone > 0 {
        case.nontrivial(sig((capacity, hist.len(), &log)));
    }
    case.sample(|| json!({"capacity": capacity, "history": hist.chars().take(300).collect::<String>()}));
    Ok(())
}

// ---------------------------------------------------------------- C25

fn add_to(r: &Rec, at: usize, v: i64) -> Rec {
    let mut r = r.clone();
    r[at] = v;
    r
}

fn tick_delta(r: &mut Rng, base: u32) -> i32 {
    match r.below(8) {
        0 => i32::MAX,
        1 => i32::MIN,
        2 => (-(base as i64)).max(i32::MIN as i64) as i32,
        3 => (-(base as i64) - 1).max(i32::MIN as i64) as i32,
        4 => (u32::MAX as i64 - base as i64).min(i32::MAX as i64) as i32,
        5 => (u32::MAX as i64 - base as i64 + 1).min(i32::MAX as i64) as i32,
        6 => r.range(i32::MIN as i64, i32::MAX as i64) as i32,
        _ => r.range(-1000, 1000) as i32,
    }
}

fn base_tick(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => r.range(0, 1000) as u32,
        2 => u32::MAX - r.below(3) as u32,
        3 => (i32::MAX as u32).wrapping_add(r.below(3) as u32),
        4 => r.range(0, u32::MAX as i64) as u32,
        _ => 240 * r.below(1000) as u32,
    }
}

/// The attributes of a note as given, nothing derived.
fn attrs(n: &Note) -> (u32, Pitch, Duration, bool, bool, u8, [i16; 4], Vec<i64>, [i16; 4], u8) {
    (
        n.base_start_tick, n.pitch, n.duration, n.tie, n.tied, n.base_velocity.as_u8(), n.start_tick_trimmer.to_array(),
        (0..4).map(|i| permille(n.duration_trimmer.value(i))).collect(), n.velocity_trimmer.to_array(), n.channel.as_u8(),
    )
}

fn same_but(what: &str, n: &Note, got: &Note, want: &Note) -> R {
    ensure!(attrs(got) == attrs(want), what, "{} of {:?} gives {:?}, expected {:?}", what, n, got, want);
    ensure!(got == want, what, "{} of {:?} gives {:?}, which does not equal {:?}", what, n, got, want);
    ensure!(got.start_tick_trimmer.sum() == want.start_tick_trimmer.sum() && got.velocity_trimmer.sum() == want.velocity_trimmer.sum() && permille(got.duration_trimmer.sum()) == permille(want.duration_trimmer.sum()), what, "{} of {:?}: the totals of a trimmer changed", what, n);
    Ok(())
}

fn c25(case: &mut Case) -> R {
    for _ in 0..60 {
        note_edits(case)?;
        tempo_edits(case)?;
        item_edits(case)?;
    }
    Ok(())
}

fn note_edits(case: &mut Case) -> R {
    let r = &mut case.rng;
    let wild = r.chance(1, 2);
    let n = Note::new(base_tick(r), gen::pitch(r), gen::duration(r), r.chance(1, 2), r.chance(1, 2), gen::velocity(r), gen::trimmer(r, wild), gen::rate(r), gen::trimmer(r, wild), gen::channel(r));
    case.at(|| format!("{:?}", n));
    let crash = |what: &str, p: String| fail::<()>(format!("{} crash", what), format!("{} of {:?} crashed: {}", what, n, p));
    let pos = n.pitch.score_offset() as i64;
    let f = sf_no(n.pitch.sharp_flat()) as usize;
    // pitch steps and toggles
    let toggled = |cycle: [usize; 3]| match cycle.iter().position(|c| *c == f) {
        Some(k) if f != 0 => cycle[k + 1],
        _ => cycle[0],
    };
    let ops: [(&str, fn(&Note) -> Result<Note, PitchError>, i64, usize); 5] = [
        ("a step up", |n| n.up_score_offset(), pos + 1, f),
        ("a step down", |n| n.down_score_offset(), pos - 1, f),
        ("toggling sharp", |n| n.toggle_sharp(), pos, toggled([1, 2, 0])),
        ("toggling flat", |n| n.toggle_flat(), pos, toggled([3, 4, 0])),
        ("toggling natural", |n| n.toggle_natural(), pos, toggled([5, 0, 0])),
    ];
    for (what, op, to, acc) in ops {
        case.eval();
        match (caught(|| op(&n)), ref_at(to, acc)) {
            (Err(p), _) => crash(what, p)?,
            (Ok(Ok(g)), Some(w)) => {
                ensure!(show(g.pitch) == w, what, "{} of {:?} gives {:?}", what, n.pitch, g.pitch);
                same_but(what, &n, &g, &Note { pitch: g.pitch, ..n.clone() })?;
                case.count("pitch edits", 1);
            }
            (Ok(Err(_)), None) => case.count("pitch edits refused", 1),
            (Ok(Ok(g)), None) => fail(what, format!("{} of {:?} gives {:?}, expected a refusal", what, n.pitch, g.pitch))?,
            (Ok(Err(e)), Some(_)) => fail(what, format!("{} of {:?} is refused: {:?}", what, n.pitch, e))?,
        }
    }
    // duration
    let d = gen::duration(&mut case.rng);
    case.evals(2);
    match caught(|| (n.with_duration(d), n.with_duration_numerator(d.numerator))) {
        Err(p) => crash("changing the duration", p)?,
        Ok((a, b)) => {
            same_but("changing the duration", &n, &a, &Note { duration: d, ..n.clone() })?;
            same_but("changing the note value", &n, &b, &Note { duration: Duration { numerator: d.numerator, ..n.duration }, ..n.clone() })?;
        }
    }
    // dots
    for k in [case.rng.range(-9, 9) as i32, any_i32(&mut case.rng)] {
        case.eval();
        let to = n.duration.dots.value() as i64 + k as i64;
        match caught(|| n.add_dots(k)) {
            Err(p) => fail("dots crash", format!("adding {} dots to {:?} crashed: {}", k, n.duration, p))?,
            Ok(Ok(g)) => {
                ensure!((0..=7).contains(&to), "dots", "adding {} dots to {:?} gives {:?}", k, n.duration, g.duration);
                same_but("adding dots", &n, &g, &Note { duration: Duration { dots: Dots::from_value(to as u8).unwrap(), ..n.duration }, ..n.clone() })?;
                case.count("dots added", 1);
            }
            Ok(Err(_)) => {
                ensure!(!(0..=7).contains(&to), "dots", "adding {} dots to {:?} is refused", k, n.duration);
                case.count("dots refused", 1);
            }
        }
    }
    // ties
    let mut t = n.clone();
    let mut states = vec![(n.tie, n.tied)];
    for _ in 0..4 {
        let g = match caught(|| t.toggle_tie()) {
            Ok(g) => g,
            Err(p) => return crash("toggling the tie", p),
        };
        case.eval();
        same_but("toggling the tie", &t, &g, &Note { tie: g.tie, tied: g.tied, ..t.clone() })?;
        states.push((g.tie, g.tied));
        t = g;
    }
    // the documented cycle: none, tie, tied, both, none
    let next = |s: (bool, bool)| match s {
        (false, false) => (true, false),
        (true, false) => (false, true),
        (false, true) => (true, true),
        (true, true) => (false, false),
    };
    for w in states.windows(2) {
        ensure!(w[1] == next(w[0]), "tie cycle", "toggling the tie of (tie, tied) {:?} gives {:?}", w[0], w[1]);
    }
    // built up from some of its attributes, the others are those of any note
    let d = Note::default();
    let set = case.rng.below(1024);
    case.eval();
    let on = |k: u32| set >> k & 1 == 1;
    let want = Note {
        base_start_tick: if on(0) { n.base_start_tick } else { d.base_start_tick },
        pitch: if on(1) { n.pitch } else { d.pitch },
        duration: if on(2) { n.duration } else { d.duration },
        tie: if on(3) { n.tie } else { d.tie },
        tied: if on(4) { n.tied } else { d.tied },
        base_velocity: if on(5) { n.base_velocity } else { d.base_velocity },
        start_tick_trimmer: if on(6) { n.start_tick_trimmer } else { d.start_tick_trimmer },
        duration_trimmer: if on(7) { n.duration_trimmer } else { d.duration_trimmer },
        velocity_trimmer: if on(8) { n.velocity_trimmer } else { d.velocity_trimmer },
        channel: if on(9) { n.channel } else { d.channel },
    };
    let built = caught(|| {
        let mut b = NoteBuilder::default();
        for k in 0..10 {
            if on(k) {
                match k {
                    0 => b.base_start_tick(n.base_start_tick),
                    1 => b.pitch(n.pitch),
                    2 => b.duration(n.duration),
                    3 => b.tie(n.tie),
                    4 => b.tied(n.tied),
                    5 => b.base_velocity(n.base_velocity),
                    6 => b.start_tick_trimmer(n.start_tick_trimmer),
                    7 => b.duration_trimmer(n.duration_trimmer),
                    8 => b.velocity_trimmer(n.velocity_trimmer),
                    _ => b.channel(n.channel),
                };
            }
        }
        b.build().ok()
    });
    match built {
        Ok(Some(g)) => ensure!(attrs(&g) == attrs(&want) && g == want, "builder", "a note built with {:010b} of the attributes of {:?} is {:?}", set, n, g),
        other => fail("builder", format!("building a note with {:010b} of the attributes of {:?}: {:?}", set, n, other))?,
    }
    // moving in time
    for trim in [false, true] {
        let delta = tick_delta(&mut case.rng, n.base_start_tick);
        let to = n.base_start_tick as i64 + delta as i64;
        if to > u32::MAX as i64 && !trim {
            continue;
        }
        case.eval();
        let what = if trim { "trimming the start" } else { "nudging" };
        match caught(|| n.with_tick_added(delta, trim)) {
            Err(p) => crash(what, p)?,
            Ok(Err(TickError::Minus)) => {
                ensure!(to < 0, what, "{} {:?} by {} is refused", what, n, delta);
                case.count("nudges refused", 1);
            }
            Ok(Ok(g)) => {
                ensure!(to >= 0, what, "{} {:?} by {} is not refused: {:?}", what, n, delta, g);
                if trim {
                    same_but(what, &n, &g, &Note { start_tick_trimmer: g.start_tick_trimmer, ..n.clone() })?;
                    let (a, b): (i64, i64) = (n.start_tick_trimmer.to_array().iter().map(|x| *x as i64).sum(), g.start_tick_trimmer.to_array().iter().map(|x| *x as i64).sum());
                    if b != a + delta as i64 {
                        let lim = if delta > 0 { i16::MAX } else { i16::MIN };
                        ensure!(g.start_tick_trimmer.to_array() == [lim; 4], what, "trimming {:?} by {} gives {:?}", n.start_tick_trimmer, delta, g.start_tick_trimmer);
                    }
                    ensure!(g.start_tick_trimmer.sum() as i64 == b, what, "trimming {:?} by {}: total {}", n.start_tick_trimmer, delta, g.start_tick_trimmer.sum());
                } else {
                    same_but(what, &n, &g, &Note { base_start_tick: to as u32, ..n.clone() })?;
                }
                case.count("nudges", 1);
            }
        }
    }
    // dragging
    let delta = tick_delta(&mut case.rng, n.base_start_tick);
    let by = match case.rng.below(6) {
        0 | 1 => 0,
        2 => any_i32(&mut case.rng) as i64,
        3 => case.rng.range(-pos - 3, 78 - pos),
        _ => case.rng.range(-pos, 74 - pos),
    };
    // (a drag beyond the outermost pitch stops there)
    let end = if by < 0 { (0..=pos).find(|p| ref_at(*p, f).is_some()) } else { (pos..77).rev().find(|p| ref_at(*p, f).is_some()) };
    let at = ref_at(pos + by, f).or_else(|| ref_at(end?, f));
    if let Some(w) = at {
        if w.4 != pos + by {
            case.count("drags stopped at the outermost pitch", 1);
        }
        case.eval();
        match caught(|| n.drag(delta, by as i32)) {
            Err(p) => fail("drag crash", format!("dragging {:?} by {} ticks and {} positions crashed: {}", n, delta, by, p))?,
            Ok(g) => {
                let to = (n.base_start_tick as i64 + delta as i64).clamp(0, u32::MAX as i64) as u32;
                ensure!(show(g.pitch) == w, "drag", "dragging {:?} by {} positions gives {:?}", n.pitch, by, g.pitch);
                same_but("dragging", &n, &g, &Note { base_start_tick: to, pitch: g.pitch, ..n.clone() })?;
                if to as i64 != n.base_start_tick as i64 + delta as i64 {
                    case.count("drags stopped at a limit", 1);
                } else {
                    case.count("drags", 1);
                }
            }
        }
    }
    case.nontrivial(sig(attrs(&n)));
    case.sample(|| json!({"note": format!("{:?}", n)}));
    Ok(())
}

fn tempo_edits(case: &mut Case) -> R {
    let r = &mut case.rng;
    let v = match r.below(4) {
        0 => 1,
        1 => 999,
        2 => *r.pick(&[2u16, 998, 120]),
        _ => r.range(1, 999) as u16,
    };
    let t = Tempo::new(base_tick(r), v);
    case.at(|| format!("{:?}", t));
    ensure!(t.value.as_u16() == v && t.value.value() == v, "tempo", "a tempo of {} says {:?}", v, t.value);
    case.evals(4);
    match caught(|| t.up()) {
        Err(p) => fail("tempo crash", format!("a step up from {:?} crashed: {}", t, p))?,
        Ok(Ok(g)) => ensure!(v < 999 && tempo_rec(&g) == vec![t.start_tick as i64, v as i64 + 1], "tempo up", "a step up from {:?} gives {:?}", t, g),
        Ok(Err(_)) => ensure!(v == 999, "tempo up", "a step up from {:?} is refused", t),
    }
    match caught(|| t.down()) {
        Err(p) => fail("tempo crash", format!("a step down from {:?} crashed: {}", t, p))?,
        Ok(Ok(g)) => ensure!(v > 1 && tempo_rec(&g) == vec![t.start_tick as i64, v as i64 - 1], "tempo down", "a step down from {:?} gives {:?}", t, g),
        Ok(Err(_)) => ensure!(v == 1, "tempo down", "a step down from {:?} is refused", t),
    }
    let delta = tick_delta(&mut case.rng, t.start_tick);
    let dv = match case.rng.below(5) {
        0 => any_i32(&mut case.rng),
        1 => case.rng.range(-66_000, 66_000) as i32,
        2 => -(v as i32) + case.rng.range(-1, 2) as i32,
        3 => 999 - v as i32 + case.rng.range(-1, 2) as i32,
        _ => case.rng.range(-1100, 1100) as i32,
    };
    match caught(|| t.drag(delta, dv)) {
        Err(p) => fail("tempo crash", format!("dragging {:?} by {} and {} crashed: {}", t, delta, dv, p))?,
        Ok(g) => {
            let want = vec![(t.start_tick as i64 + delta as i64).clamp(0, u32::MAX as i64), (v as i64 + dv as i64).clamp(1, 999)];
            ensure!(tempo_rec(&g) == want, "tempo drag", "dragging {:?} by {} ticks and {} gives {:?}, expected {:?}", t, delta, dv, g, want);
        }
    }
    let delta = tick_delta(&mut case.rng, t.start_tick);
    let to = t.start_tick as i64 + delta as i64;
    if to <= u32::MAX as i64 {
        match caught(|| t.with_tick_added(delta)) {
            Err(p) => fail("tempo crash", format!("nudging {:?} by {} crashed: {}", t, delta, p))?,
            Ok(Ok(g)) => ensure!(to >= 0 && tempo_rec(&g) == vec![to, v as i64], "tempo nudge", "nudging {:?} by {} gives {:?}", t, delta, g),
            Ok(Err(TickError::Minus)) => ensure!(to < 0, "tempo nudge", "nudging {:?} by {} is refused", t, delta),
        }
    }
    ensure!(t.start_tick() == t.start_tick && t.base_start_tick() == t.start_tick, "tick", "the tick seen through the item interface differs for {:?}", t);
    Ok(())
}

fn item_edits(case: &mut Case) -> R {
    let r = &mut case.rng;
    let b = Bar::new(base_tick(r), if r.chance(1, 2) { Some(gen::rhythm(r)) } else { None }, if r.chance(1, 2) { Some(gen::key(r)) } else { None }, gen::repeat_set(r));
    let c = CtrlChg::new(base_tick(r), gen::velocity(r), gen::channel(r));
    case.at(|| format!("{:?} {:?}", b, c));
    let d = tick_delta(&mut case.rng, b.start_tick);
    case.evals(4);
    let to = b.start_tick as i64 + d as i64;
    match caught(|| b.drag(d)) {
        Err(p) => fail("bar crash", format!("dragging {:?} by {} crashed: {}", b, d, p))?,
        Ok(g) => ensure!(bar_rec(&g) == add_to(&bar_rec(&b), 0, to.clamp(0, u32::MAX as i64)), "bar drag", "dragging {:?} by {} gives {:?}", b, d, g),
    }
    if to <= u32::MAX as i64 {
        match caught(|| b.with_tick_added(d)) {
            Err(p) => fail("bar crash", format!("nudging {:?} by {} crashed: {}", b, d, p))?,
            Ok(Ok(g)) => ensure!(to >= 0 && bar_rec(&g) == add_to(&bar_rec(&b), 0, to), "bar nudge", "nudging {:?} by {} gives {:?}", b, d, g),
            Ok(Err(TickError::Minus)) => ensure!(to < 0, "bar nudge", "nudging {:?} by {} is refused", b, d),
        }
    }
    let d = tick_delta(&mut case.rng, c.start_tick);
    let to = c.start_tick as i64 + d as i64;
    match caught(|| c.drag(d)) {
        Err(p) => fail("pedal crash", format!("dragging {:?} by {} crashed: {}", c, d, p))?,
        Ok(g) => ensure!(ctrl_rec(&g) == add_to(&ctrl_rec(&c), 0, to.clamp(0, u32::MAX as i64)), "pedal drag", "dragging {:?} by {} gives {:?}", c, d, g),
    }
    if to <= u32::MAX as i64 {
        match caught(|| c.with_tick_added(d)) {
            Err(p) => fail("pedal crash", format!("nudging {:?} by {} crashed: {}", c, d, p))?,
            Ok(Ok(g)) => ensure!(to >= 0 && ctrl_rec(&g) == add_to(&ctrl_rec(&c), 0, to), "pedal nudge", "nudging {:?} by {} gives {:?}", c, d, g),
            Ok(Err(TickError::Minus)) => ensure!(to < 0, "pedal nudge", "nudging {:?} by {} is refused", c, d),
        }
    }
    ensure!(b.start_tick() == b.start_tick && b.base_start_tick() == b.start_tick && c.start_tick() == c.start_tick && c.base_start_tick() == c.start_tick, "tick", "the tick seen through the item interface differs for {:?} or {:?}", b, c);
    Ok(())
}

// ---------------------------------------------------------------- C26

/// A constructor that may refuse by a documented panic: either that or a limited value.
fn ctor(what: &str, v: i64, lo: i64, hi: i64, got: Result<i64, String>) -> R {
    if (lo..=hi).contains(&v) {
        ensure!(got == Ok(v), what, "{} of {} gives {:?}", what, v, got);
    } else if let Ok(g) = got {
        ensure!(g == v.clamp(lo, hi), what, "{} of {} gives {}", what, v, g);
    }
    Ok(())
}

/// A constructor that answers with an error: no panic, exactly the legal values.
fn tried(what: &str, v: i64, legal: bool, got: Result<Option<i64>, String>) -> R {
    match got {
        Err(p) => fail(format!("{} crash", what), format!("{} of {} crashed: {}", what, v, p)),
        Ok(g) => {
            ensure!(g == if legal { Some(v) } else { None }, what, "{} of {} gives {:?}", what, v, g);
            Ok(())
        }
    }
}

/// A constructor that limits: no panic, the nearest legal value.
fn limited(what: &str, v: i64, lo: i64, hi: i64, got: Result<i64, String>) -> R {
    match got {
        Err(p) => fail(format!("{} crash", what), format!("{} of {} crashed: {}", what, v, p)),
        Ok(g) => {
            ensure!(g == v.clamp(lo, hi), what, "{} of {} gives {}", what, v, g);
            Ok(())
        }
    }
}

/// Reading a stored number: a legal value is kept; anything else is refused or made legal, without crashing.
fn stored<T: serde::de::DeserializeOwned>(what: &str, js: String, v: i64, lo: i64, hi: i64, int: fn(T) -> i64) -> R {
    match caught(|| serde_json::from_str::<T>(&js).ok().map(int)) {
        Err(p) => fail(format!("{} stored crash", what), format!("reading {} as {} crashed: {}", js, what, p)),
        Ok(None) => {
            ensure!(!(lo..=hi).contains(&v), format!("{} stored", what), "{} is refused as {}", js, what);
            Ok(())
        }
        Ok(Some(g)) => {
            ensure!((lo..=hi).contains(&g) && (g == v || !(lo..=hi).contains(&v)), format!("{} stored", what), "{} is read as {} {}", js, what, g);
            Ok(())
        }
    }
}

fn c26_bytes(case: &mut Case) -> R {
    // every u8
    for v in 0..=255u8 {
        let i = v as i64;
        case.evals(18);
        tried("dots", i, v <= 7, caught(|| Dots::from_value(v).map(|d| d.value() as i64)))?;
        tried("tuplet divisor", i, v >= 2, caught(|| duration::Denominator::from_value(v).map(|d| d.value() as i64)))?;
        tried("rhythm numerator", i, (1..=99).contains(&v), caught(|| rhythm::Numerator::from_value(v).ok().map(|d| d.value() as i64)))?;
        tried("rhythm denominator", i, [2, 4, 8, 16, 32, 64].contains(&v), caught(|| rhythm::Denominator::from_value(v).ok().map(|d| d.value() as i64)))?;
        tried("note value", i, v <= 7, caught(|| Numerator::from_ord(v).map(|d| d.ord() as i64)))?;
        tried("ending", i, (1..=4).contains(&v), caught(|| VarIndex::from_value(v).ok().map(|d| d.value() as i64)))?;
        limited("velocity", i, 0, 127, caught(|| Velocity::new(v).as_u8() as i64))?;
        limited("iteration", i, 1, 5, caught(|| PlayIter::new(v).iter() as i64))?;
        ctor("new channel", i, 0, 15, caught(|| Channel::new(v).as_u8() as i64))?;
        stored::<Dots>("dots", v.to_string(), i, 0, 7, |d| d.value() as i64)?;
        stored::<duration::Denominator>("tuplet divisor", v.to_string(), i, 2, 255, |d| d.value() as i64)?;
        stored::<rhythm::Numerator>("rhythm numerator", v.to_string(), i, 1, 99, |d| d.value() as i64)?;
        stored::<Channel>("channel", v.to_string(), i, 0, 15, |d| d.as_u8() as i64)?;
        stored::<Velocity>("velocity", v.to_string(), i, 0, 127, |d| d.as_u8() as i64)?;
        stored::<Key>("key", (v as i8).to_string(), v as i8 as i64, -7, 7, |d| d.offset() as i64)?;
        // setting the iteration
        for from in 1..=5u8 {
            let mut it = PlayIter::new(from);
            let ok = it.set_iter(v);
            let legal = (1..=5).contains(&v);
            ensure!(ok == legal && it.iter() == if legal { v } else { from }, "set iteration", "setting iteration {} to {} answers {} and leaves {}", from, v, ok, it.iter());
        }
        if let Ok(d) = rhythm::Denominator::from_value(v) {
            ensure!(d.to_string() == v.to_string(), "denominator text", "denominator {} shows {}", v, d.to_string());
        }
        if let Some(d) = duration::Denominator::from_value(v) {
            ensure!(d.to_string() == v.to_string(), "divisor text", "divisor {} shows {}", v, d.to_string());
        }
        ensure!(Velocity::new(v).to_string() == v.min(127).to_string(), "velocity text", "velocity {} shows {}", v, Velocity::new(v));
        // steps of endings
        if let Ok(x) = VarIndex::from_value(v) {
            tried("next ending", i + 1, v < 4, caught(|| x.next().ok().map(|d| d.value() as i64)))?;
            tried("previous ending", i - 1, v > 1, caught(|| x.prev().ok().map(|d| d.value() as i64)))?;
            ensure!(x.to_repeat() == REPEATS[6 + v as usize], "ending mark", "ending {} has the mark {:?}", v, x.to_repeat());
            let y: VarIndex = v.into();
            ensure!(y == x, "ending", "{} converts to {:?}", v, y);
        }
        // text of a rhythm numerator
        let t = rhythm::Numerator::from_str(&v.to_string());
        ensure!(t.as_ref().ok().map(|n| n.value()) == if (1..=99).contains(&v) { Some(v) } else { None }, "numerator text", "numerator text {} gives {:?}", v, t);
        if let Ok(n) = t {
            ensure!(n.to_string() == v.to_string(), "numerator text", "numerator {} shows {}", v, n);
        }
        // rhythms
        for d in 0..=255u8 {
            case.eval();
            let legal = (1..=99).contains(&v) && [2, 4, 8, 16, 32, 64].contains(&d);
            let got = match caught(|| Rhythm::value_of(v, d)) {
                Ok(g) => g,
                Err(p) => return fail("rhythm crash", format!("rhythm {}/{} crashed: {}", v, d, p)),
            };
            match got {
                Ok(r) => {
                    ensure!(legal && r.numerator().value() == v && r.denominator().value() == d && r.numerator == r.numerator() && r.denominator == r.denominator(), "rhythm", "rhythm {}/{} is {:?}", v, d, r);
                    ensure!(r.tick_len() as i64 == i * 960 / d as i64, "bar length", "a bar of {}/{} lasts {}", v, d, r.tick_len());
                    ensure!(caught(|| Rhythm::new(v, d)) == Ok(r), "new rhythm", "Rhythm::new({}, {}) disagrees with value_of", v, d);
                }
                Err(klavier_core::rhythm::RhythmError::NumeratorError(x)) => ensure!(!(1..=99).contains(&v) && x == v, "rhythm", "rhythm {}/{} is refused for its numerator {}", v, d, x),
                Err(klavier_core::rhythm::RhythmError::DenominatorError(x)) => ensure!(!legal && x == d, "rhythm", "rhythm {}/{} is refused for its denominator {}", v, d, x),
            }
            if !legal {
                ensure!(caught(|| Rhythm::new(v, d)).is_err(), "new rhythm", "Rhythm::new({}, {}) is accepted", v, d);
            }
        }
    }
    ensure!(rhythm::DENOMINATORS.iter().map(|d| d.value()).collect::<Vec<_>>() == [2, 4, 8, 16, 32, 64], "denominators", "the list of denominators is {:?}", rhythm::DENOMINATORS);
    case.count("exhaustive bytes", 256);
    Ok(())
}

fn c26_words(case: &mut Case) -> R {
    // every u16, in 16 slices
    let slice = case.idx - 1;
    let lo = slice as u32 * 4096;
    for v in lo..lo + 4096 {
        let (v, i) = (v as u16, v as i64);
        case.evals(6);
        limited("safe tempo", i, 1, 999, caught(|| TempoValue::safe_new(v).as_u16() as i64))?;
        ctor("tempo", i, 1, 999, caught(|| TempoValue::new(v).as_u16() as i64))?;
        ctor("tempo change", i, 1, 999, caught(|| Tempo::new(7, v).value.as_u16() as i64))?;
        limited("percentage", i, 0, 2000, caught(|| permille(PercentU16::from_value(v))))?;
        stored::<TempoValue>("tempo", v.to_string(), i, 1, 999, |d| d.as_u16() as i64)?;
        stored::<PercentU16>("percentage", format!("{{\"value\":{}}}", v), i, 0, 2000, permille)?;
        if (1..=999).contains(&v) {
            let t = TempoValue::new(v);
            ensure!(t.value() == v && t.as_u16() == v, "tempo", "tempo {} says {:?}", v, t);
            tried("tempo up", i + 1, v < 999, caught(|| t.up().ok().map(|d| d.as_u16() as i64)))?;
            tried("tempo down", i - 1, v > 1, caught(|| t.down().ok().map(|d| d.as_u16() as i64)))?;
        }
        if v <= 2000 {
            let p = PercentU16::from_value(v);
            let f = p.to_f32();
            ensure!((f as f64 * 1000.0 - v as f64).abs() < 1e-3, "percentage", "{} permille as a number is {}", v, f);
            ensure!(permille(PercentU16::from(f)) == i, "percentage back", "{} permille becomes {} and back {}", v, f, permille(PercentU16::from(f)));
            ensure!(p == PercentU16::from(f), "percentage back", "{} permille differs from itself after conversion", v);
            let t: Option<f32> = p.to_string().parse().ok();
            ensure!(t.map(|t| permille(PercentU16::from(t))) == Some(i), "percentage text", "{} permille shows {}", v, p.to_string());
            // where the result is just short of the next number, or has just reached it
            let room = (u32::MAX as u64 * 1000 / (v as u64).max(1000)) as u32;
            let mut xs = vec![];
            for from in [room, case.rng.below(room as u64 + 1) as u32, case.rng.below(6000) as u32] {
                let near: Vec<u32> = (0..1000).filter_map(|k| from.checked_sub(k)).collect();
                let rest = |x: &u32| (*x as u64 * v as u64) % 1000;
                xs.extend(near.iter().copied().max_by_key(rest));
                xs.extend(near.iter().copied().min_by_key(rest));
            }
            for _ in 0..6 {
                xs.push(match case.rng.below(6) {
                    0 => case.rng.u32() / 2,
                    1 => case.rng.below(4000) as u32,
                    2 => u32::MAX / 2 - case.rng.below(3) as u32,
                    3 => case.rng.u32(),
                    4 => room - case.rng.below(3) as u32,
                    _ => 1 << case.rng.below(32),
                });
            }
            for x in xs {
                case.eval();
                let want = x as u64 * v as u64 / 1000;
                if want <= u32::MAX as u64 {
                    let got = caught(|| p.apply(x));
                    ensure!(got == Ok(want as u32), "scaling", "{} scaled by {} permille is {:?}, expected {}", x, v, got, want);
                }
            }
        }
    }
    case.count("exhaustive words", 4096);
    Ok(())
}

/// The limits the library publishes are the ones its constructors keep to.
fn c26_published(case: &mut Case) -> R {
    let den = |v: u8| caught(|| duration::Denominator::from_value(v).is_some()) == Ok(true);
    let dots = |v: u8| caught(|| Dots::from_value(v).is_some()) == Ok(true);
    let all: Vec<u8> = (0..=255).collect();
    let (lo, hi) = (|f: &dyn Fn(u8) -> bool| all.iter().copied().find(|v| f(*v)), |f: &dyn Fn(u8) -> bool| all.iter().rev().copied().find(|v| f(*v)));
    case.evals(12);
    ensure!((lo(&den), hi(&den)) == (Some(Duration::MIN_DENOMINATOR), Some(Duration::MAX_DENOMINATOR)), "published-divisor", "tuplet divisors from {:?} to {:?} are accepted, published are {} to {}", lo(&den), hi(&den), Duration::MIN_DENOMINATOR, Duration::MAX_DENOMINATOR);
    ensure!(hi(&dots) == Some(Duration::MAX_DOT), "published-dots", "dots up to {:?} are accepted, published is {}", hi(&dots), Duration::MAX_DOT);
    let num = |v: u8| caught(|| Numerator::from_ord(v).is_some()) == Ok(true);
    ensure!(hi(&num) == Some(Duration::MAX_NUMERATOR), "published-duration", "note values up to {:?} are accepted, published is {}", hi(&num), Duration::MAX_NUMERATOR);
    ensure!(klavier_core::note::MAX_TICK_LEN == Duration::MAX_TICK_LENGTH, "published-duration", "two different longest durations are published, {} and {}", klavier_core::note::MAX_TICK_LEN, Duration::MAX_TICK_LENGTH);
    ensure!(klavier_core::tempo::MIN_TEMPO.as_u16() == 1 && klavier_core::tempo::MAX_TEMPO.as_u16() == 999 && klavier_core::tempo::MIN_TEMPO_VALUE == 1 && klavier_core::tempo::MAX_TEMPO_VALUE == 999, "published-tempo", "the published tempo limits are {:?} and {:?}", klavier_core::tempo::MIN_TEMPO, klavier_core::tempo::MAX_TEMPO);
    ensure!(klavier_core::velocity::MIN.as_u8() == 0 && klavier_core::velocity::MAX.as_u8() == 127, "published-velocity", "the published velocity limits are {:?} and {:?}", klavier_core::velocity::MIN, klavier_core::velocity::MAX);
    ensure!(pitch::MIN.value() as i64 == pitch::MIN_VALUE as i64 && pitch::MAX.value() as i64 == pitch::MAX_VALUE as i64, "published-pitch", "the published pitches are {:?} and {:?}", pitch::MIN, pitch::MAX);
    ensure!((permille(PercentU16::MIN), permille(PercentU16::HUNDRED), permille(PercentU16::MAX)) == (0, 1000, 2000), "published-percent", "the published percentages are {:?}, {:?}, {:?}", PercentU16::MIN, PercentU16::HUNDRED, PercentU16::MAX);
    let named = [Dots::ZERO, Dots::ONE, Dots::TWO, Dots::THREE, Dots::FOUR, Dots::FIVE, Dots::SIX, Dots::SEVEN];
    for (i, d) in named.iter().enumerate() {
        case.eval();
        ensure!(d.value() as usize == i && Dots::from_value(i as u8) == Some(*d), "published-dots", "the named dot count {} is {:?}", i, d);
    }
    let named = [
        Key::FLAT_7, Key::FLAT_6, Key::FLAT_5, Key::FLAT_4, Key::FLAT_3, Key::FLAT_2, Key::FLAT_1, Key::NONE,
        Key::SHARP_1, Key::SHARP_2, Key::SHARP_3, Key::SHARP_4, Key::SHARP_5, Key::SHARP_6, Key::SHARP_7,
    ];
    for (i, k) in named.iter().enumerate() {
        case.eval();
        ensure!(k.offset() as i64 == i as i64 - 7 && Key::ALL.contains(k), "published-key", "the named key of {} accidentals is {:?}", i as i64 - 7, k);
    }
    for v in 0..=255u8 {
        case.eval();
        let legal = caught(|| rhythm::Numerator::from_value(v).is_ok()) == Ok(true);
        ensure!(legal == (rhythm::MIN_NUMERATOR..=rhythm::MAX_NUMERATOR).contains(&v), "published-rhythm", "a rhythm of {} beats is {}, published are {} to {}", v, if legal { "accepted" } else { "refused" }, rhythm::MIN_NUMERATOR, rhythm::MAX_NUMERATOR);
    }
    case.evals(4);
    ensure!((klavier_core::octave::MIN, klavier_core::octave::MAX) == (Octave::OctM2, Octave::Oct8) && (Octave::MIN_VALUE, Octave::MAX_VALUE) == (Octave::OctM2, Octave::Oct8), "published-octave", "the published octaves are {:?} to {:?}", Octave::MIN_VALUE, Octave::MAX_VALUE);
    ensure!(permille(PercentU16::ZERO) == 0, "published-percent", "the published zero is {:?}", PercentU16::ZERO);
    c26_defaults(case)
}

/// What is had without saying anything is legal, and alters nothing where there is such a value.
fn c26_defaults(case: &mut Case) -> R {
    let r = caught(|| {
        let n = Note::default();
        let legal = [
            ("iteration", (1..=klavier_core::play_iter::MAX_ITER).contains(&PlayIter::default().iter())),
            ("velocity", Velocity::default().as_u8() <= 127 && n.base_velocity().as_u8() <= 127),
            ("channel", Channel::default().as_u8() < 16),
            ("tempo", (1..=999).contains(&TempoValue::default().as_u16()) && (1..=999).contains(&Tempo::default().value.as_u16())),
            ("grid", Grid::default().as_u32() > 0),
            ("rhythm", (rhythm::MIN_NUMERATOR..=rhythm::MAX_NUMERATOR).contains(&Rhythm::default().numerator().value())),
            ("pitch", (0..=127).contains(&(Pitch::default().value() as i64))),
        ];
        let neutral = [
            ("dots", Dots::default() == Dots::ZERO && n.duration.dots == Dots::ZERO),
            ("tuplet divisor", duration::Denominator::default().value() == 2 && Duration::default().denominator.value() == 2),
            ("trimmer", Trimmer::default().to_array() == [0; 4] && Trimmer::default().sum() == 0),
            ("rate", RateTrimmer::default().to_vec() == vec![PercentU16::HUNDRED; 4] && RateTrimmer::default().sum() == PercentU16::HUNDRED),
            ("key", Key::default() == Key::NONE && Key::NONE.offset() == 0),
            ("marks", RepeatSet::default() == RepeatSet::EMPTY && RepeatSet::EMPTY.len() == 0),
            ("note", !n.tie && !n.tied && n.start_tick() == n.base_start_tick && n.tick_len() == n.duration.tick_length() && n.velocity() == n.base_velocity()),
        ];
        (legal, neutral)
    });
    let (legal, neutral) = match r {
        Ok(x) => x,
        Err(p) => return fail("default-crash", format!("making the default values crashed: {}", p)),
    };
    case.evals(14);
    for (name, ok) in legal {
        ensure!(ok, format!("default-{}", name.replace(' ', "-")), "the default {} is not a legal one", name);
    }
    for (name, ok) in neutral {
        ensure!(ok, format!("default-{}", name.replace(' ', "-")), "the default {} is not the one that alters nothing", name);
    }
    Ok(())
}

fn c26_rest(case: &mut Case) -> R {
    c26_published(case)?;
    // octaves and names
    let mut nums: Vec<i32> = (-60..=60).collect();
    for k in 0..4 {
        nums.push(i32::MAX - k);
        nums.push(i32::MIN + k);
        nums.push(case.rng.range(i32::MIN as i64, i32::MAX as i64) as i32);
        nums.push(254 + k);
        nums.push(65534 + k);
    }
    for v in nums.iter().copied() {
        let i = v as i64;
        case.evals(4);
        tried("octave", i, (-2..=8).contains(&v), caught(|| Octave::value_of(v).ok().map(|o| o.value() as i64)))?;
        tried("octave from position", i, (0..=10).contains(&v), caught(|| Octave::from_score_offset(v).ok().map(|o| o.offset() as i64)))?;
        if let Err(e) = Octave::value_of(v) {
            ensure!(!e.to_string().is_empty(), "octave error", "the octave error shows nothing");
        }
        limited("name", i, 0, 6, caught(|| Solfa::from_score_offset(v).score_offset() as i64))?;
        for o in Octave::ALL {
            let to = o.value() as i64 + i;
            for (what, to, got) in [
                ("octave += ", to, caught(|| {
                    let mut x = *o;
                    x += v;
                    x.value() as i64
                })),
                ("octave -= ", o.value() as i64 - i, caught(|| {
                    let mut x = *o;
                    x -= v;
                    x.value() as i64
                })),
            ] {
                case.eval();
                let legal = (-2..=8).contains(&to);
                ensure!(got.is_ok() == legal && (!legal || got == Ok(to)), what.trim(), "{:?} {}{} gives {:?}", o, what, v, got);
            }
        }
        for s in Solfa::ALL {
            for (what, to, got) in [
                ("name +=", solfa_no(*s) + i, caught(|| {
                    let mut x = *s;
                    x += v;
                    solfa_no(x)
                })),
                ("name -=", solfa_no(*s) - i, caught(|| {
                    let mut x = *s;
                    x -= v;
                    solfa_no(x)
                })),
            ] {
                case.eval();
                // beyond the end where stepping leads it is refused (panics); at the other end it may be limited
                if (0..=6).contains(&to) {
                    ensure!(got == Ok(to), what, "{:?} {} {} gives {:?}", s, what, v, got);
                } else if let Ok(g) = got {
                    ensure!(g == to.clamp(0, 6), what, "{:?} {} {} gives {}", s, what, v, g);
                }
            }
        }
    }
    for a in Octave::ALL {
        ensure!(a.offset() == a.value() + 2, "octave", "{:?} has offset {}", a, a.offset());
        for b in Octave::ALL {
            let to = a.value() as i64 + b.value() as i64;
            let got = caught(|| (*a + *b).value() as i64);
            let legal = (-2..=8).contains(&to);
            ensure!(got.is_ok() == legal && (!legal || got == Ok(to)), "octave +", "{:?} + {:?} gives {:?}", a, b, got);
        }
    }
    for s in Solfa::ALL {
        ensure!(Solfa::from_score_offset(s.score_offset()) == *s && s.pitch_offset() as i64 == SEMITONES[solfa_no(*s) as usize], "name", "{:?}: position {} semitone {}", s, s.score_offset(), s.pitch_offset());
        ensure!(s.to_string() == format!("{:?}", s), "name text", "{:?} shows {}", s, s);
    }
    for f in SHARP_FLATS {
        ensure!(f.offset() as i64 == SF_SEMITONE[sf_no(f) as usize], "accidental", "{:?} alters by {}", f, f.offset());
    }
    // numbers to percentages
    for _ in 0..600 {
        let f: f32 = match case.rng.below(6) {
            0 => f32::from_bits(case.rng.u32()),
            1 => case.rng.range(-100, 2100) as f32 / 1000.0 + 0.00049,
            2 => case.rng.range(0, 2_000_000) as f32 / 1_000_000.0,
            3 => *case.rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 2.0, 2.0000002, 1.9999999, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -1e-9, 65.536, 65.537, 4294967.5]),
            4 => case.rng.range(-70_000, 70_000) as f32 / 1000.0,
            _ => case.rng.range(0, 2000) as f32 / 1000.0,
        };
        case.eval();
        let got = match caught(|| permille(PercentU16::from(f))) {
            Ok(g) => g,
            Err(p) => return fail("percentage crash", format!("a percentage from {} crashed: {}", f, p)),
        };
        if f.is_nan() {
            ensure!((0..=2000).contains(&got), "percentage from number", "{} gives {} permille", f, got);
        } else {
            let want = (f as f64 * 1000.0).clamp(0.0, 2000.0);
            ensure!((got as f64 - want).abs() <= 0.501, "percentage from number", "{} gives {} permille, expected {}", f, got, want);
        }
        case.nontrivial(f.to_bits() as u64);
    }
    // clipping
    for _ in 0..200 {
        let (a, b, x) = (any_i32(&mut case.rng), any_i32(&mut case.rng), any_i32(&mut case.rng));
        let (lo, hi) = (a.min(b), a.max(b));
        case.evals(3);
        let c = clipper::for_i32(lo, hi);
        ensure!(c.clip(x) == x.clamp(lo, hi), "clip", "{} clipped to {}..={} is {}", x, lo, hi, c.clip(x));
        let (a, b, x) = (gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng));
        let (lo, hi) = (a.min(b), a.max(b));
        let c = clipper::for_i16(lo, hi);
        ensure!(c.clip(x) == x.clamp(lo, hi), "clip", "{} clipped to {}..={} is {}", x, lo, hi, c.clip(x));
        let g = |r: &mut Rng| r.range(-1_000_000, 1_000_000) as f32 / 7.0;
        let (a, b, x) = (g(&mut case.rng), g(&mut case.rng), g(&mut case.rng));
        let (lo, hi) = (a.min(b), a.max(b));
        let c = clipper::for_f32(lo, hi);
        ensure!(c.clip(x) == x.clamp(lo, hi), "clip", "{} clipped to {}..={} is {}", x, lo, hi, c.clip(x));
        let x = any_i32(&mut case.rng);
        ensure!(Note::TICK_CLIPPER.clip(x) == x.max(0), "clip", "the tick clipper makes {} of {}", Note::TICK_CLIPPER.clip(x), x);
        let x = gen::i16_any(&mut case.rng);
        ensure!(Note::VELOCITY_CLIPPER.clip(x) == x.clamp(0, 127), "clip", "the velocity clipper makes {} of {}", Note::VELOCITY_CLIPPER.clip(x), x);
    }
    // stored numbers beyond the type, wrong types, names that do not exist
    for t in ["-1", "256", "300", "65536", "4294967296", "1.5", "\"7\"", "null", "[]", "{}", "true", "1e3", "-129"] {
        let bad = |what: &str, r: Result<bool, String>| -> R {
            ensure!(r.is_ok(), format!("{} stored crash", what), "reading {} as {} crashed: {:?}", t, what, r);
            ensure!(r == Ok(false), format!("{} stored", what), "{} is accepted as {}", t, what);
            Ok(())
        };
        case.evals(5);
        bad("dots", caught(|| serde_json::from_str::<Dots>(t).is_ok()))?;
        bad("channel", caught(|| serde_json::from_str::<Channel>(t).is_ok()))?;
        bad("rhythm numerator", caught(|| serde_json::from_str::<rhythm::Numerator>(t).is_ok()))?;
        if t != "-1" {
            bad("key", caught(|| serde_json::from_str::<Key>(t).is_ok()))?;
        }
        bad("octave", caught(|| serde_json::from_str::<Octave>(t).is_ok()))?;
    }
    case.sample(|| json!({"octave numbers": nums.len()}));
    Ok(())
}

fn c26(case: &mut Case) -> R {
    let idx = case.idx;
    case.at(|| format!("case {}", case_name(idx)));
    match case.idx {
        0 => c26_bytes(case),
        1..=16 => c26_words(case),
        _ => c26_rest(case),
    }
}

fn case_name(i: u64) -> &'static str {
    match i {
        0 => "every byte in every byte-sized constructor",
        1..=16 => "a slice of every word in every word-sized constructor",
        _ => "octaves, names, numbers to percentages, clipping",
    }
}

// ---------------------------------------------------------------- C28

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Equality against the equality of everything the values show.
fn same<T: PartialEq + std::fmt::Debug>(case: &mut Case, kind: &'static str, a: &T, b: &T, equal: bool) -> R {
    case.evals(2);
    case.count(if equal { "equal_pairs" } else { "unequal_pairs" }, 1);
    let say = |e: bool| if e { "equal" } else { "unequal" };
    ensure!((a == b) == equal && (b == a) == equal, format!("eq-{}", kind), "{:?} and {:?} are {} (the other way round {}), but what they show is {}", a, b, say(a == b), say(b == a), say(equal));
    ensure!((a != b) == !equal, format!("ne-{}", kind), "{:?} and {:?}: != is not the opposite of ==", a, b);
    Ok(())
}

fn same_hash<T: PartialEq + Hash + std::fmt::Debug>(case: &mut Case, kind: &'static str, a: &T, b: &T, equal: bool) -> R {
    same(case, kind, a, b, equal)?;
    if equal {
        ensure!(hash_of(a) == hash_of(b), format!("hash-{}", kind), "{:?} and {:?} are equal but their hashes differ", a, b);
    }
    Ok(())
}

/// The same trimmer by another road, or another one that adds up to the same.
fn trimmer_like(r: &mut Rng, t: Trimmer) -> Trimmer {
    let v = t.to_array();
    match r.below(8) {
        0 => Trimmer::new(v[0], v[1], v[2], v[3]),
        1 => Trimmer::from_vec(&v.to_vec()),
        2 => serde_json::from_value(json!({ "values": v })).unwrap(),
        3 => t.updated(|x| x.swap(r.usize(4), r.usize(4))),
        4 => {
            let (i, j, d) = (r.usize(4), r.usize(4), r.range(-3, 3) as i16);
            t.updated(|x| {
                if let (Some(p), Some(m)) = (x[i].checked_add(d), x[j].checked_sub(d)) {
                    x[i] = p;
                    if i != j {
                        x[j] = m;
                    }
                }
            })
        }
        5 => t.added(if r.chance(1, 2) { 0 } else { r.range(-2, 2) as i32 }),
        6 => {
            let (i, x) = (r.usize(4), gen::i16_any(r));
            t.updated(|v| v[i] = x)
        }
        _ => gen::trimmer(r, true),
    }
}

fn rate_like(r: &mut Rng, t: RateTrimmer) -> RateTrimmer {
    let v = t.to_vec();
    match r.below(7) {
        0 => RateTrimmer::from_array([v[0], v[1], v[2], v[3]]),
        1 => RateTrimmer::from_vec(&v),
        2 => {
            // (a percentage is the nearest permille of the number)
            RateTrimmer::new(v[0].to_f32(), v[1].to_f32(), v[2].to_f32(), v[3].to_f32())
        }
        3 => {
            let mut v = v;
            v.swap(r.usize(4), r.usize(4));
            RateTrimmer::from_vec(&v)
        }
        4 => {
            let mut v = v;
            let i = r.usize(4);
            v[i] = PercentU16::from_value((permille(v[i]) + r.range(-1, 1)).max(0) as u16);
            RateTrimmer::from_vec(&v)
        }
        5 => {
            let mut v = v;
            let i = r.usize(4);
            v[i] = gen::percent(r);
            RateTrimmer::from_vec(&v)
        }
        _ => gen::rate(r),
    }
}

fn trimmer_vals(t: Trimmer) -> Vec<i64> {
    (0..4).map(|i| t.value(i) as i64).collect()
}
fn rate_vals(t: RateTrimmer) -> Vec<i64> {
    (0..4).map(|i| permille(t.value(i))).collect()
}

fn note_like(r: &mut Rng, n: &Note, t: &gen::Ticks) -> Note {
    let mut m = n.clone();
    let d = m.duration;
    for _ in 0..r.below(3) {
        match r.below(13) {
            0 => m.base_start_tick = t.tick(r),
            1 => m.pitch = gen::pitch(r),
            2 => m.duration = gen::duration(r),
            3 => m.tie = r.chance(1, 2),
            4 => m.tied = r.chance(1, 2),
            5 => m.base_velocity = gen::velocity(r),
            6 => m.start_tick_trimmer = trimmer_like(r, m.start_tick_trimmer),
            7 => m.duration_trimmer = rate_like(r, m.duration_trimmer),
            8 => m.velocity_trimmer = trimmer_like(r, m.velocity_trimmer),
            9 => m.channel = gen::channel(r),
            10 => m.duration = Duration::new(d.numerator, d.denominator, gen::dots(r)),
            11 => {
                // the same number under another name
                let p = m.pitch;
                let o = gen::pitch(r);
                m.pitch = Pitch::value_of(o.solfa(), p.octave(), o.sharp_flat()).unwrap_or(p);
            }
            _ => std::mem::swap(&mut m.start_tick_trimmer, &mut m.velocity_trimmer),
        }
    }
    m
}

fn c28(case: &mut Case) -> R {
    let mut r = case.rng.clone();
    let t = gen::Ticks::new(&mut r, 4000);
    for _ in 0..30 {
        let n = gen::note(&mut r, &t, true);
        let m = if r.chance(1, 12) { gen::note(&mut r, &t, true) } else { note_like(&mut r, &n, &t) };
        case.at(|| format!("{:?} and {:?}", n, m));
        let (a, b) = (note_rec(&n), note_rec(&m));
        // what a note shows without what follows from it (starts before zero all show as zero)
        same(case, "note", &n, &m, a[..28] == b[..28])?;
        same_hash(case, "pitch", &n.pitch, &m.pitch, a[1..4] == b[1..4])?;
        same_hash(case, "duration", &n.duration, &m.duration, a[6..9] == b[6..9])?;
        same_hash(case, "trimmer", &n.start_tick_trimmer, &m.start_tick_trimmer, trimmer_vals(n.start_tick_trimmer) == trimmer_vals(m.start_tick_trimmer))?;
        same(case, "rate", &n.duration_trimmer, &m.duration_trimmer, rate_vals(n.duration_trimmer) == rate_vals(m.duration_trimmer))?;
        if n == m && a != b {
            return fail("equal-but-different", format!("{:?} and {:?} are equal but do not sound the same", n, m));
        }
        case.nontrivial(hash_bytes(format!("{:?}{:?}", a, b).as_bytes()));

        let x = gen::trimmer(&mut r, true);
        let y = trimmer_like(&mut r, x);
        same_hash(case, "trimmer", &x, &y, trimmer_vals(x) == trimmer_vals(y))?;
        let x = gen::rate(&mut r);
        let y = rate_like(&mut r, x);
        same(case, "rate", &x, &y, rate_vals(x) == rate_vals(y))?;
        let x = gen::percent(&mut r);
        let y = match r.below(3) {
            0 => PercentU16::from(x.to_f32()),
            1 => PercentU16::from_value((permille(x) + r.range(-2, 2)).max(0) as u16),
            _ => gen::percent(&mut r),
        };
        same(case, "percent", &x, &y, permille(x) == permille(y))?;

        let x = gen::bar(&mut r, &t);
        let mut y = x;
        match r.below(6) {
            0 => y.start_tick = t.tick(&mut r),
            1 => y.rhythm = if r.chance(1, 2) { None } else { Some(gen::rhythm(&mut r)) },
            2 => y.key = if r.chance(1, 2) { None } else { Some(gen::key(&mut r)) },
            3 => y.repeats = gen::repeat_set(&mut r),
            4 => {
                // equally many marks, put on one by one in another order
                let mut marks: Vec<_> = REPEATS.iter().copied().filter(|m| x.repeats.contains(*m)).collect();
                marks.reverse();
                let mut set = klavier_core::bar::RepeatSet::EMPTY;
                for m in marks {
                    set = match set.try_add(m) {
                        Ok(s) => s,
                        Err(_) => set,
                    };
                }
                y.repeats = set;
            }
            _ => {}
        }
        let (a, b) = (bar_rec(&x), bar_rec(&y));
        same(case, "bar", &x, &y, a == b)?;
        same(case, "marks", &x.repeats, &y.repeats, a[4] == b[4])?;
        let (x, y) = (gen::rhythm(&mut r), gen::rhythm(&mut r));
        same(case, "rhythm", &x, &y, rhythm_rec(x) == rhythm_rec(y))?;
        let (x, y) = (gen::key(&mut r), gen::key(&mut r));
        same_hash(case, "key", &x, &y, x.offset() == y.offset())?;
        let x = gen::tempo(&mut r, &t);
        let mut y = x;
        match r.below(3) {
            0 => y.start_tick = t.tick(&mut r),
            1 => y = Tempo::new(y.start_tick, r.range(1, 999) as u16),
            _ => {}
        }
        same(case, "tempo", &x, &y, tempo_rec(&x) == tempo_rec(&y))?;
        let ord = x.value.as_u16().cmp(&y.value.as_u16());
        ensure!(x.value.cmp(&y.value) == ord && x.value.partial_cmp(&y.value) == Some(ord), "tempo-order", "{:?} and {:?} are ordered {:?}", x.value, y.value, x.value.cmp(&y.value));
        let x = gen::ctrl(&mut r, &t);
        let mut y = x;
        match r.below(4) {
            0 => y.start_tick = t.tick(&mut r),
            1 => y.velocity = gen::velocity(&mut r),
            2 => y.channel = gen::channel(&mut r),
            _ => {}
        }
        same(case, "pedal", &x, &y, ctrl_rec(&x) == ctrl_rec(&y))?;
        same_hash(case, "channel", &x.channel, &y.channel, x.channel.as_u8() == y.channel.as_u8())?;
        same(case, "velocity", &x.velocity, &y.velocity, x.velocity.as_u8() == y.velocity.as_u8())?;
        let (x, y) = (gen::grid(&mut r), gen::grid(&mut r));
        same(case, "grid", &x, &y, x.as_u32() == y.as_u32())?;
    }
    // interning: one representative for all that show the same, whichever came first
    let mut pool: Vec<Trimmer> = vec![gen::trimmer(&mut r, true)];
    for _ in 0..60 {
        let x = *r.pick(&pool);
        pool.push(trimmer_like(&mut r, x));
    }
    let mut fly = FlyWeight::new();
    let mut firsts: Vec<&Trimmer> = vec![];
    for p in pool.iter() {
        let got = fly.intern(p);
        let want = match firsts.iter().find(|f| trimmer_vals(***f) == trimmer_vals(*p)) {
            Some(f) => *f,
            None => {
                firsts.push(p);
                p
            }
        };
        case.eval();
        ensure!(std::ptr::eq(got, want), "intern", "interning {:?} gives {} instead of the first equal value", p, if got == p { "another instance" } else { "an unequal value" });
    }
    case.count("interned_values", pool.len() as u64);
    case.sample(|| json!({"interned": pool.len(), "distinct": firsts.len()}));
    case.rng = r;
    Ok(())
}

// ---------------------------------------------------------------- C30

/// Whether the text has the number standing in it (not as part of a longer number).
fn mentions(text: &str, v: i64) -> bool {
    let b = text.as_bytes();
    let w = v.abs().to_string();
    text.match_indices(&w).any(|(i, _)| {
        let before = i > 0 && b[i - 1].is_ascii_digit();
        let after = b.get(i + w.len()).map_or(false, |c| c.is_ascii_digit());
        let minus = i > 0 && b[i - 1] == b'-';
        !before && !after && (v >= 0 || minus)
    })
}

fn refused_byte<T: TryFrom<u8, Error = String>>(what: &'static str, v: u8, ok: bool) -> R {
    match caught(|| T::try_from(v)) {
        Err(p) => fail("crash", format!("{} {} crashed: {}", what, v, p)),
        Ok(Ok(_)) => {
            ensure!(ok, "accepted", "{} {} is accepted", what, v);
            Ok(())
        }
        Ok(Err(e)) => {
            ensure!(!ok, "refused", "{} {} is refused ({})", what, v, e);
            ensure!(mentions(&e, v as i64), "error names another value", "{} {} is refused with {:?}", what, v, e);
            Ok(())
        }
    }
}

/// The pitch a refusal is about: number and parts have to belong together and to be out of range on the side named.
fn refused_pitch(what: &str, of: &str, e: &PitchError, parts: (Solfa, Octave, klavier_core::sharp_flat::SharpFlat)) -> R {
    let n = ref_value(solfa_no(parts.0) as usize, parts.1.value() as i64, sf_no(parts.2) as usize);
    let (low, got) = match e {
        PitchError::TooLow(s, o, f, v) => (true, (*s, *o, *f, *v)),
        PitchError::TooHigh(s, o, f, v) => (false, (*s, *o, *f, *v)),
        PitchError::InvalidScoreOffset(_) => return fail("error kind", format!("{} {} is refused with {:?}", what, of, e)),
    };
    ensure!((got.0, got.1, got.2) == parts && got.3 as i64 == n, "error names another pitch", "{} {} asks for {:?} (number {}), the refusal is {:?}", what, of, parts, n, e);
    ensure!(if low { n < 0 } else { n > 127 }, "wrong side", "{} {} (number {}) is refused with {:?}", what, of, n, e);
    ensure!(mentions(&e.to_string(), n), "error text", "{:?} shows {:?}", e, e.to_string());
    Ok(())
}

fn refused_octave(what: &str, v: i32, got: Result<Result<Octave, OctaveError>, String>) -> R {
    match got {
        Err(p) => fail("crash", format!("{} {} crashed: {}", what, v, p)),
        Ok(Ok(o)) => {
            ensure!((-2..=8).contains(&v) && o.value() == v, "octave", "{} {} gives {:?}", what, v, o);
            Ok(())
        }
        Ok(Err(e)) => {
            let OctaveError::InvalidValue(n) = e;
            ensure!(!(-2..=8).contains(&v), "refused", "{} {} is refused", what, v);
            ensure!(n == v, "error names another value", "octave {} ({}) is refused as octave {}", v, what, n);
            ensure!(mentions(&e.to_string(), v as i64), "error text", "octave {} is refused with {:?}", v, e.to_string());
            Ok(())
        }
    }
}

fn c30_all(case: &mut Case) -> R {
    for v in 0..=255u8 {
        case.evals(8);
        refused_byte::<Channel>("channel", v, v <= 15)?;
        refused_byte::<rhythm::Numerator>("beat count", v, (1..=99).contains(&v))?;
        refused_byte::<Dots>("dots", v, v <= 7)?;
        let k = v as i8;
        match caught(|| Key::try_from(k)) {
            Err(p) => return fail("crash", format!("key {} crashed: {}", k, p)),
            Ok(Ok(_)) => ensure!((-7..=7).contains(&k), "accepted", "key {} is accepted", k),
            Ok(Err(e)) => {
                let e = e.to_string();
                ensure!(!(-7..=7).contains(&k), "refused", "key {} is refused", k);
                ensure!(mentions(&e, k as i64), "error names another value", "key {} is refused with {:?}", k, e);
            }
        }
        match rhythm::Numerator::from_value(v) {
            Ok(n) => ensure!(n.value() == v && (1..=99).contains(&v), "accepted", "beat count {} is accepted as {}", v, n),
            Err(rhythm::NumeratorError::InvalidValue(n)) => ensure!(n == v && !(1..=99).contains(&v), "error names another value", "beat count {} is refused as {}", v, n),
            Err(e) => return fail("error kind", format!("beat count {} is refused with {:?}", v, e)),
        }
        let good = [2, 4, 8, 16, 32, 64].contains(&v);
        match rhythm::Denominator::from_value(v) {
            Ok(d) => ensure!(good && d.value() == v, "accepted", "beat unit {} is accepted as {}", v, d.value()),
            Err(rhythm::DenominatorError::InvalidValue(n)) => ensure!(n == v && !good, "error names another value", "beat unit {} is refused as {}", v, n),
        }
        match VarIndex::from_value(v) {
            Ok(i) => ensure!(i.value() == v && (1..=4).contains(&v), "accepted", "ending {} is accepted as {}", v, i.value()),
            Err(VarIndexError::InvalidIndex(n)) => ensure!(n == v && !(1..=4).contains(&v), "error names another value", "ending {} is refused as {}", v, n),
        }
        for d in 0..=255u8 {
            case.eval();
            let (n_ok, d_ok) = ((1..=99).contains(&v), [2, 4, 8, 16, 32, 64].contains(&d));
            match caught(|| Rhythm::value_of(v, d)) {
                Err(p) => return fail("crash", format!("rhythm {}/{} crashed: {}", v, d, p)),
                Ok(Ok(r)) => ensure!(n_ok && d_ok && r.numerator().value() == v && r.denominator().value() == d, "rhythm", "rhythm {}/{} gives {:?}", v, d, r),
                Ok(Err(rhythm::RhythmError::NumeratorError(x))) => ensure!(!n_ok && x == v, "error names another value", "rhythm {}/{} is refused for its beat count, named {}", v, d, x),
                Ok(Err(rhythm::RhythmError::DenominatorError(x))) => ensure!(!d_ok && x == d, "error names another value", "rhythm {}/{} is refused for its beat unit, named {}", v, d, x),
            }
        }
    }
    for (i, want) in [(VarIndex::VI1, (0, 2)), (VarIndex::VI2, (1, 3)), (VarIndex::VI3, (2, 4)), (VarIndex::VI4, (3, 5))] {
        for (got, w, what) in [(i.prev(), want.0, "before"), (i.next(), want.1, "after")] {
            let n = match got {
                Ok(x) => x.value(),
                Err(VarIndexError::InvalidIndex(n)) => n,
            };
            ensure!(n == w, "ending step", "the ending {} ending {} is given or refused as {}", what, i.value(), n);
        }
    }
    let mut shown: HashMap<String, String> = HashMap::new();
    for s in Solfa::ALL {
        for o in Octave::ALL {
            for f in SHARP_FLATS {
                case.eval();
                let of = format!("{:?} {:?} {:?}", s, o, f);
                let p = match Pitch::value_of(*s, *o, f) {
                    Err(e) => {
                        refused_pitch("the pitch", &of, &e, (*s, *o, f))?;
                        case.nontrivial(hash_bytes(of.as_bytes()));
                        case.count("impossible_pitches", 1);
                        if let Some(x) = shown.insert(e.to_string(), format!("{:?}", e)) {
                            return fail("error text", format!("{:?} and {} show the same: {}", e, x, e));
                        }
                        continue;
                    }
                    Ok(p) => p,
                };
                for (what, got) in [("sharpening", p.toggle_sharp()), ("flattening", p.toggle_flat()), ("the natural of", p.toggle_natural())] {
                    if let Err(e) = got {
                        let t = match (&e, what) {
                            (PitchError::TooLow(_, _, t, _), _) | (PitchError::TooHigh(_, _, t, _), _) => *t,
                            _ => return fail("error kind", format!("{} {} is refused with {:?}", what, of, e)),
                        };
                        refused_pitch(what, &of, &e, (*s, *o, t))?;
                        case.nontrivial(hash_bytes(format!("{}{}", what, of).as_bytes()));
                    }
                }
                for (what, got) in [("the name above", p.up()), ("the name below", p.down())] {
                    if let Err(e) = got {
                        let n = solfa_no(*s) + if what.ends_with("above") { 1 } else { -1 };
                        if !(0..7).contains(&n) && ((n < 0 && o.value() == -2) || (n > 6 && o.value() == 8)) {
                            continue; // there is no octave to name
                        }
                        let s2 = Solfa::ALL[n.rem_euclid(7) as usize];
                        let o2 = Octave::value_of(o.value() + n.div_euclid(7) as i32).unwrap();
                        refused_pitch(what, &of, &e, (s2, o2, f))?;
                    }
                }
                for k in -7..=7i8 {
                    let key = Key::try_from(k).ok().unwrap();
                    if let Err(e) = p.apply_key(key) {
                        let t = if k < 0 { SHARP_FLATS[sf_index(klavier_core::sharp_flat::SharpFlat::Flat)] } else { klavier_core::sharp_flat::SharpFlat::Sharp };
                        refused_pitch("the key on", &of, &e, (*s, *o, t))?;
                        case.nontrivial(hash_bytes(format!("{}{}", k, of).as_bytes()));
                    }
                }
                for d in (-80..=80i32).chain([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 1000, -1000]) {
                    case.eval();
                    let target = p.score_offset() as i64 + d as i64;
                    match caught(|| p.with_score_offset_delta(d)) {
                        Err(x) => return fail("crash", format!("moving {} by {} crashed: {}", of, d, x)),
                        Ok(Ok(_)) => {}
                        Ok(Err(e)) => match e {
                            PitchError::InvalidScoreOffset(x) => {
                                ensure!(x as i64 == target || (target > i32::MAX as i64 && x == i32::MAX) || (target < i32::MIN as i64 && x == i32::MIN), "error names another value", "moving {} by {} to position {} is refused as position {}", of, d, target, x);
                                ensure!(!(0..=74).contains(&target), "error kind", "moving {} by {} to the staff position {} is refused as a position that does not exist", of, d, target);
                                ensure!(mentions(&e.to_string(), x as i64), "error text", "{:?} shows {:?}", e, e.to_string());
                            }
                            _ => {
                                ensure!((0..77).contains(&target), "error kind", "moving {} by {} to position {} is refused with {:?}", of, d, target, e);
                                let o2 = Octave::value_of((target / 7 - 2) as i32).unwrap();
                                refused_pitch("moving", &format!("{} by {}", of, d), &e, (Solfa::ALL[(target % 7) as usize], o2, f))?;
                            }
                        },
                    }
                }
            }
        }
    }
    let marks: Vec<String> = REPEATS.iter().map(|m| m.to_string()).collect();
    for (i, m) in marks.iter().enumerate() {
        case.eval();
        ensure!(!m.is_empty() && !marks[..i].contains(m), "mark text", "{:?} shows {:?} like another mark", REPEATS[i], m);
    }
    for v in -300..=300 {
        refused_octave("by number", v, caught(|| Octave::value_of(v)))?;
        refused_octave("by offset", v, caught(|| Octave::from_score_offset(v + 2)))?;
    }
    Ok(())
}

fn sf_index(f: klavier_core::sharp_flat::SharpFlat) -> usize {
    SHARP_FLATS.iter().position(|x| *x == f).unwrap()
}

/// The number a text of an optional plus and digits denotes, if it is below 2^64.
fn plain_number(s: &str) -> Option<u128> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = d.trim_start_matches('0');
    if t.len() > 30 { Some(u128::MAX) } else { Some(t.bytes().fold(0u128, |a, b| a * 10 + (b - b'0') as u128)) }
}

fn c30(case: &mut Case) -> R {
    if case.idx == 0 {
        return c30_all(case);
    }
    let mut r = case.rng.clone();
    for _ in 0..40 {
        let v = r.u64() as i32;
        let v = if r.chance(1, 3) { *r.pick(&[i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3, i32::MAX, i32::MAX - 1, i32::MAX - 2, i32::MAX - 3]) } else { v };
        case.evals(2);
        refused_octave("by number", v, caught(|| Octave::value_of(v)))?;
        if v <= i32::MAX - 2 {
            refused_octave("by offset", v, caught(|| Octave::from_score_offset(v + 2)))?;
        }
    }
    for _ in 0..40 {
        case.evals(3);
        let t = typed(&mut r);
        let n = plain_number(&t);
        match rhythm::Numerator::from_str(&t) {
            Ok(x) => ensure!(n == Some(x.value() as u128), "beat count", "beat count {:?} is read as {}", t, x),
            Err(rhythm::NumeratorError::InvalidValue(x)) => ensure!(n == Some(x as u128) && !(1..=99).contains(&x), "error names another value", "beat count {:?} is refused as {}", t, x),
            Err(rhythm::NumeratorError::CannotParse(x)) => {
                ensure!(n.map_or(true, |n| n > 255), "error kind", "beat count {:?} is refused as unreadable", t);
                ensure!(x == t, "error names another text", "beat count {:?} is refused as {:?}", t, x);
                case.nontrivial(hash_bytes(t.as_bytes()));
            }
        }
        match Grid::value_of(&t) {
            Ok(g) => ensure!(n == Some(g.as_u32() as u128), "grid", "grid {:?} is read as {:?}", t, g),
            Err(GridError::ParseError(x)) => {
                ensure!(n.map_or(true, |n| n == 0 || n > u32::MAX as u128), "refused", "grid {:?} is refused", t);
                ensure!(x == t || (n == Some(0) && plain_number(&x) == Some(0)), "error names another text", "grid {:?} is refused as {:?}", t, x);
                case.nontrivial(hash_bytes(t.as_bytes()) ^ 1);
            }
        }
        match Validated::<Option<duration::Denominator>>::from_str(&t) {
            Ok(_) => {}
            Err(DurationDenominatorError::InvalidValue) => ensure!(n.map_or(false, |n| n <= 255), "error kind", "divisor {:?} is refused as a number out of range", t),
            Err(DurationDenominatorError::ParseIntError) => ensure!(n.map_or(true, |n| n > 255), "error kind", "divisor {:?} is refused as unreadable", t),
        }
    }
    let t = gen::Ticks::new(&mut r, 4000);
    let n = gen::note(&mut r, &t, true);
    for _ in 0..20 {
        case.eval();
        let k = match r.below(4) {
            0 => r.u64() as i32,
            1 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 256, -256, 255, 65536]),
            _ => r.range(0, 40) as i32 - 20,
        };
        let want = (n.duration.dots.value() as i64 + k as i64).min(i32::MAX as i64);
        match caught(|| n.add_dots(k)) {
            Err(p) => return fail("crash", format!("adding {} dots to {:?} crashed: {}", k, n.duration, p)),
            Ok(Ok(m)) => ensure!((0..=7).contains(&want) && m.duration.dots.value() as i64 == want, "dots", "{} dots more than {:?} are {:?}", k, n.duration, m.duration),
            Ok(Err(e)) => ensure!(!(0..=7).contains(&want) && mentions(&format!("{:?}", e), want), "error names another value", "{} dots more than {:?} are refused as {:?}", k, n.duration, e),
        }
    }
    // pasted texts
    for _ in 0..8 {
        case.eval();
        let t = clip_text(&mut r);
        let (a, b) = (Models::from_clipboard_text(t.clone()).err(), ExportedProject::from_clipboard_text(t.clone()).err());
        for (who, e) in [("a selection", a), ("a project", b)] {
            let Some(e) = e else { continue };
            let ver = leading_number(&t);
            match &e {
                FromClipboardTextErr::VersionErr { detected_ver } => ensure!(ver == Some(*detected_ver as u128) && *detected_ver != Models::VERSION, "error names another version", "{:?} as {} is refused for version {}", t, who, detected_ver),
                FromClipboardTextErr::CannotParse { err_json, detail } => {
                    ensure!(err_json == &t, "error names another text", "{:?} as {} is refused, quoting {:?}", t, who, err_json);
                    ensure!(!detail.is_empty(), "no detail", "{:?} as {} is refused without detail", t, who);
                    ensure!(ver.map_or(true, |v| v == 1 || v > u64::MAX as u128), "error kind", "{:?} as {} (version {:?}) is refused as unreadable", t, who, ver);
                }
                FromClipboardTextErr::VersionNotU64 { err_json } => {
                    ensure!(err_json == &t, "error names another text", "{:?} as {} is refused, quoting {:?}", t, who, err_json);
                    ensure!(ver.map_or(true, |v| v > u64::MAX as u128), "error kind", "{:?} as {} has the version {:?}, which is a number", t, who, ver);
                }
                FromClipboardTextErr::EmptyString => ensure!(t.bytes().all(|c| b" \n\t\r".contains(&c)), "error kind", "{:?} as {} is refused as empty", t, who),
            }
            case.count("refused_texts", 1);
            case.nontrivial(hash_bytes(t.as_bytes()) ^ 2);
        }
        case.sample(|| json!({"text": t.chars().take(60).collect::<String>()}));
    }
    case.rng = r;
    Ok(())
}

/// The whole number a text starts with after blanks, if it starts with one that ends there.
fn leading_number(t: &str) -> Option<u128> {
    let t = t.trim_start_matches([' ', '\n', '\t', '\r']);
    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    if d.is_empty() || (d.len() > 1 && d.starts_with('0')) || d.len() > 30 || !t[d.len()..].chars().next().map_or(true, |c| " \n\t\r\"[]{},:".contains(c)) {
        return None;
    }
    d.parse().ok()
}

fn clip_text(r: &mut Rng) -> String {
    let blank: String = (0..r.below(4)).map(|_| *r.pick(&[' ', '\n', '\t', '\r'])).collect();
    let ver = match r.below(6) {
        0 => r.below(20).to_string(),
        1 => r.u64().to_string(),
        2 => r.pick(&["0", "2", "256", "257", "65537", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616"]).to_string(),
        3 => r.pick(&["-1", "1.5", "\"1\"", "null", "true", "[1]", "{}", "1.0", "1e0", "\"é😀\"", "", "x", "01"]).to_string(),
        _ => "1".to_string(),
    };
    let body = match r.below(6) {
        0 => String::new(),
        1 => "{}".to_string(),
        2 => r.pick(&["{\"notes\":[],\"bars\":[],\"tempos\":[],\"dumpers\":[]}", "[]", "{\"notes\":1}", "{\"notes\":[{}]}", "{\"é\":\"😀\n\"}", " null", "x", "}", "\u{0}", "{\"notes\":[],\"bars\":[],\"tempos\":[],\"dumpers\":[],\"softs\":[]} x"]).to_string(),
        _ => {
            let t = gen::Ticks::new(r, 4000);
            let m = Models { notes: vec![gen::note(r, &t, true)], bars: vec![], tempos: vec![gen::tempo(r, &t)], dumpers: vec![], softs: vec![gen::ctrl(r, &t)] };
            let mut s = m.to_clipboard_text()[1..].to_string();
            for _ in 0..r.below(3) {
                let at = r.usize(s.len() + 1);
                if r.chance(1, 2) { s.truncate(at) } else { s.insert(at, *r.pick(&['"', '}', '9', '-', ' ', 'é', '😀', ','])) }
                if !s.is_ascii() { break }
            }
            s
        }
    };
    format!("{}{}{}{}", blank, ver, if r.chance(1, 3) { " " } else { "" }, body)
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C18", rule: "every one of the 7 x 11 x 6 combinations of name, octave and accidental is built, stepped, toggled and shifted by about 6000 staff distances up to the ends of 32 bits, against number and position computed here; non-trivial: the combinations that are pitches",
            assumptions: &[], quick: 462, thorough_s: None, finite: Some(462), threads: 8, run: c18,
        },
        CheckDef {
            id: "C19", rule: "every key applied to every pitch, against the order of sharps and flats; non-trivial: the (key, pitch) that are altered",
            assumptions: &[], quick: 15, thorough_s: None, finite: Some(15), threads: 8, run: c19,
        },
        CheckDef {
            id: "C20", rule: "case 0 evaluates every duration and every single rate; every other case is 40 trimmers built in eight ways and added to, 40 rates built in five ways, and 120 random notes, against totals computed here; non-trivial: distinct trimmers with addition, rates and notes",
            assumptions: &["start ticks fit 32 bits"], quick: 120000, thorough_s: Some(300), finite: None, threads: 8, run: c20,
        },
        CheckDef {
            id: "C21", rule: "a case is 40 random selections (chords, dots, existing tuplets, trimmers, any order, up to 300 groups), compared note by note with divisor and starts computed here; non-trivial: distinct sequences of written lengths placed",
            assumptions: &["new starts are compared within 3 ticks (whole ticks are used at every step)", "where dots make a written length no whole number of 256ths only the kept attributes, order and groups are judged"], quick: 120000, thorough_s: Some(300), finite: None, threads: 8, run: c21,
        },
        CheckDef {
            id: "C22", rule: "a case is one grid with about 640 ticks around grid lines and half-way points up to 2^62, and 33 texts; the cases cover every grid to 2000 and random ones to the end of 32 bits; non-trivial: distinct (grid, tick) that moved",
            assumptions: &["ticks beyond 2^62 are not given"], quick: 60000, thorough_s: Some(240), finite: None, threads: 8, run: c22,
        },
        CheckDef {
            id: "C23", rule: "64 cases type every integer around the ranges and every permille into every field, the others 25 random texts (numbers at the limits, signs, exponents, other scripts' digits, arbitrary Unicode) into 7 fields and change each three times; each validation is compared with the number denoted; non-trivial: distinct (field, text) with a value",
            assumptions: &[], quick: 2000, thorough_s: Some(300), finite: None, threads: 8, run: c23,
        },
        CheckDef {
            id: "C24", rule: "a case is 8 histories of 80 or 400 operations (record, undo, redo, freeze) on stores of capacity 0 and up, compared after every operation with a list and a cursor; non-trivial: distinct histories in which something was undone",
            assumptions: &[], quick: 120000, thorough_s: Some(240), finite: None, threads: 8, run: c24,
        },
        CheckDef {
            id: "C25", rule: "a case is 60 random notes, tempos, bars and pedal changes each put through every edit with amounts at and around the limits, every attribute compared; non-trivial: distinct notes",
            assumptions: &["nudged ticks fit 32 bits"], quick: 120000, thorough_s: Some(300), finite: None, threads: 8, run: c25,
        },
        CheckDef {
            id: "C26", rule: "case 0 puts every byte and every pair of bytes through every byte-sized constructor and step, cases 1 to 16 every 16-bit number, the others octaves, names, numbers to percentages, clipping and stored values; non-trivial: distinct numbers made into percentages",
            assumptions: &[], quick: 3000, thorough_s: Some(240), finite: None, threads: 8, run: c26,
        },
        CheckDef {
            id: "C28", rule: "a case is 30 rounds of pairs of every value type: the same value by another road, with one attribute changed, with attributes exchanged so that sums stay, or unrelated; equality both ways, inequality, hashes and order are compared with the equality of the attributes shown, and 61 trimmers are interned; non-trivial: distinct pairs of notes",
            assumptions: &[], quick: 60000, thorough_s: Some(240), finite: None, threads: 8, run: c28,
        },
        CheckDef {
            id: "C30", rule: "case 0 refuses every byte, pair of bytes, pitch, step, toggle, key and shift that can be refused, the others random octaves, typed texts and pasted texts; every refusal is compared with the value that was handed in; non-trivial: distinct values refused",
            assumptions: &["stepping off the lowest or highest octave has no octave to name and is not judged"], quick: 120000, thorough_s: Some(240), finite: None, threads: 8, run: c30,
        },
    ]
}
