//! C14-C17: clipboard text, exported projects, serialised forms, moving a selection.

use crate::frame::{caught, fail, Case, CheckDef, Fail, R};
use crate::gen::{self, Ticks};
use crate::refm::*;
use crate::rng::{hash_bytes, Rng};
use crate::session;
use crate::ensure;
use klavier_core::bar::{Bar, Repeat, RepeatSet, VarIndex};
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration};
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::{FromClipboardTextErr, Models};
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::ProjectImpl;
use klavier_core::rhythm::Rhythm;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

type Recs = [Vec<Rec>; 5];

fn recs(m: &Models) -> Recs {
    [
        m.notes.iter().map(note_rec).collect(),
        m.bars.iter().map(bar_rec).collect(),
        m.tempos.iter().map(tempo_rec).collect(),
        m.dumpers.iter().map(ctrl_rec).collect(),
        m.softs.iter().map(ctrl_rec).collect(),
    ]
}

fn any_models(r: &mut Rng) -> Models {
    let max = *r.pick(&[960u32, 8000, 100_000, u32::MAX]);
    let t = Ticks::new(r, max);
    let each = if r.chance(1, 150) { *r.pick(&[40u64, 300, 700]) } else { *r.pick(&[1u64, 3, 6]) };
    let wild = r.chance(1, 2);
    gen::models(r, &t, wild, each)
}

/// A selection of more items of every kind than 16 bits can count.
fn giant_models(case: &mut Case) -> Models {
    case.count("selections of more than 65536 items of each kind", 1);
    let t = Ticks::new(&mut case.rng, 16_000_000);
    gen::giant(&mut case.rng, &t, true, &[0, 1, 3, 4, 5])
}

fn first_diff(a: &Recs, b: &Recs) -> String {
    for (i, name) in ["note", "bar", "tempo", "damper", "soft"].iter().enumerate() {
        if a[i].len() != b[i].len() {
            return format!("{} {}s instead of {}", b[i].len(), name, a[i].len());
        }
        for (x, y) in a[i].iter().zip(&b[i]) {
            if x != y {
                return format!("{} {:?} became {:?}", name, x, y);
            }
        }
    }
    "no difference in the attributes".into()
}

fn c14(case: &mut Case) -> R {
    let giant = case.idx % 30_000 == 13;
    for _ in 0..if giant { 1 } else { 12 } {
        let m = if giant { giant_models(case) } else { any_models(&mut case.rng) };
        case.at(|| format!("selection {:?}", m));
        let text = match caught(|| m.to_clipboard_text()) {
            Ok(t) => t,
            Err(p) => return fail("crash copying", format!("copying {:?} crashed: {}", m, p)),
        };
        case.eval();
        let mut first = serde_json::Deserializer::from_str(&text).into_iter::<Value>();
        let v = first.next().and_then(|v| v.ok());
        ensure!(v == Some(json!(Models::VERSION)), "version", "the text begins with {:?}, not with version {}", v, Models::VERSION);
        let back = match caught(|| Models::from_clipboard_text(text.clone())) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return fail("refused", format!("the text copied from {:?} is refused: {:?}", m, e)),
            Err(p) => return fail("crash pasting", format!("pasting {} crashed: {}", text, p)),
        };
        let want = recs(&m);
        ensure!(recs(&back) == want, "changed", "after copying and pasting {}", first_diff(&want, &recs(&back)));
        ensure!(back == m, "unequal", "the pasted selection is not equal to the copied one: {:?} / {:?}", m, back);
        // as a whole exported project
        let ex = match caught(|| ExportedProject::from_clipboard_text(text.clone())) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return fail("export refused", format!("the text copied from {:?} is refused as an exported project: {:?}", m, e)),
            Err(p) => return fail("crash importing", format!("importing {} crashed: {}", text, p)),
        };
        ensure!(ex.key.is_none() && ex.rhythm.is_none(), "export settings", "a text without key and rhythm gave {:?} {:?}", ex.key, ex.rhythm);
        let got = ex.to_models();
        ensure!(recs(&got) == want && got == m, "export changed", "after importing {}", first_diff(&want, &recs(&got)));
        let key = if case.rng.chance(2, 3) { Some(gen::key(&mut case.rng)) } else { None };
        let rhythm = if case.rng.chance(2, 3) { Some(gen::rhythm(&mut case.rng)) } else { None };
        let p = ExportedProject {
            key, rhythm,
            notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone(),
        };
        let mut j = serde_json::to_value(&p).unwrap();
        for name in ["key", "rhythm"] {
            if j[name].is_null() && case.rng.chance(1, 2) {
                j.as_object_mut().unwrap().remove(name);
            }
        }
        let sep = *case.rng.pick(&["", " ", "\n"]);
        let text = format!("{}{}{}", Models::VERSION, sep, if case.rng.chance(1, 2) { serde_json::to_string_pretty(&j).unwrap() } else { j.to_string() });
        let q = match caught(|| ExportedProject::from_clipboard_text(text.clone())) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return fail("project refused", format!("an exported project with key {:?} rhythm {:?} is refused: {:?}", key, rhythm, e)),
            Err(p) => return fail("crash importing", format!("importing {} crashed: {}", text, p)),
        };
        ensure!(q.key == key && q.rhythm == rhythm, "project settings", "key {:?} rhythm {:?} became {:?} {:?}", key, rhythm, q.key, q.rhythm);
        ensure!(q == p, "project changed", "the project {:?} became {:?}", p, q);
        let got = q.to_models();
        ensure!(recs(&got) == want, "project changed", "after importing {}", first_diff(&want, &recs(&got)));
        case.evals(2);
        let n: usize = want.iter().map(|v| v.len()).sum();
        case.count("items copied", n as u64);
        if n > 0 {
            case.nontrivial(hash_bytes(text.as_bytes()));
        }
        case.sample(|| json!({"items": n, "text": text.chars().take(300).collect::<String>()}));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C15

fn illegal(m: &Models) -> Option<String> {
    for n in &m.notes {
        let p = n.pitch;
        let v = SEMITONES[solfa_no(p.solfa()) as usize] + (p.octave().value() as i64 + 2) * 12 + SF_SEMITONE[sf_no(p.sharp_flat()) as usize];
        if !(0..=127).contains(&v) || v != p.value() as i64 {
            return Some(format!("pitch {:?}", p));
        }
        if p.score_offset() as i64 != solfa_no(p.solfa()) + 7 * (p.octave().value() as i64 + 2) {
            return Some(format!("staff position of {:?}", p));
        }
        if n.base_velocity.as_u8() > 127 {
            return Some(format!("velocity {:?}", n.base_velocity));
        }
        if n.channel.as_u8() >= 16 {
            return Some(format!("channel {:?}", n.channel));
        }
        if n.duration.dots.value() > 7 || n.duration.denominator.value() < 2 {
            return Some(format!("duration {:?}", n.duration));
        }
        for i in 0..4 {
            if n.duration_trimmer.value(i).to_f32() > 2.0 {
                return Some(format!("rate {:?}", n.duration_trimmer));
            }
        }
        if n.duration_trimmer.sum().to_f32() > 2.0 {
            return Some(format!("rate {:?}", n.duration_trimmer));
        }
        let sum: i32 = (0..4).map(|i| n.start_tick_trimmer.value(i)).sum();
        let vsum: i32 = (0..4).map(|i| n.velocity_trimmer.value(i)).sum();
        if sum != n.start_tick_trimmer.sum() || vsum != n.velocity_trimmer.sum() {
            return Some(format!("trimmers of {:?}", n));
        }
        if n.velocity().as_u8() > 127 {
            return Some(format!("sounding velocity of {:?}", n));
        }
        std::hint::black_box((n.start_tick(), n.tick_len(), n.duration.tick_length()));
    }
    for b in &m.bars {
        if let Some(k) = b.key {
            if k.offset().abs() > 7 {
                return Some(format!("key {:?}", k));
            }
        }
        if let Some(x) = b.rhythm.and_then(illegal_rhythm) {
            return Some(x);
        }
    }
    for t in &m.tempos {
        if !(1..=999).contains(&t.value.as_u16()) {
            return Some(format!("tempo {:?}", t));
        }
    }
    for c in m.dumpers.iter().chain(&m.softs) {
        if c.velocity.as_u8() > 127 || c.channel.as_u8() >= 16 {
            return Some(format!("pedal {:?}", c));
        }
    }
    None
}

fn illegal_rhythm(r: Rhythm) -> Option<String> {
    if !(1..=99).contains(&r.numerator().value()) || ![2, 4, 8, 16, 32, 64].contains(&r.denominator().value()) {
        return Some(format!("rhythm {:?}", r));
    }
    if r.tick_len() as u64 != r.numerator().value() as u64 * 960 / r.denominator().value() as u64 {
        return Some(format!("length of rhythm {:?}", r));
    }
    None
}

fn boundary(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!(*r.pick(&[0i64, 1, 2, 7, 8, 15, 16, 99, 100, 127, 128, 255, 256])),
        1 => json!(*r.pick(&[-1i64, -7, -8, -128, -129, -32768, -32769, i64::MIN])),
        2 => json!(*r.pick(&[999i64, 1000, 2000, 2001, 32767, 32768, 65535, 65536])),
        3 => json!(*r.pick(&[i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX])),
        4 => json!(u64::MAX),
        5 => json!(1.5),
        6 => Value::Null,
        7 => json!(r.chance(1, 2)),
        8 => json!(*r.pick(&["", "C", "H", "Oct8", "Oct9", "OctM2", "Sharp", "DoubleSharp", "DoubleFlat", "Whole", "N128th", "D1", "D2", "D64", "1"])),
        9 => json!([]),
        10 => json!({}),
        _ => json!(r.below(300)),
    }
}

/// Replace, drop or repeat something somewhere inside.
fn mutate_json(r: &mut Rng, v: &mut Value) {
    fn leaves(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
        match v {
            Value::Array(a) => {
                for x in a.iter_mut() {
                    leaves(x, f);
                }
            }
            Value::Object(o) => {
                for (_, x) in o.iter_mut() {
                    leaves(x, f);
                }
            }
            _ => f(v),
        }
    }
    let mut n = 0u64;
    leaves(v, &mut |_| n += 1);
    if n == 0 {
        return;
    }
    let at = r.below(n);
    let mut i = 0;
    let replacement = boundary(r);
    let nudge = r.range(-3, 3);
    let kind = r.below(5);
    leaves(v, &mut |x| {
        if i == at {
            match (kind, x.as_i64()) {
                (0, Some(k)) => *x = json!(k.saturating_add(nudge)),
                (1, Some(k)) => *x = json!(k.wrapping_neg()),
                _ => *x = replacement.clone(),
            }
        }
        i += 1;
    });
}

fn fuzz_number(r: &mut Rng) -> String {
    r.pick(&[
        "0", "-0", "-1", "1", "2", "8", "16", "128", "255", "256", "1000", "65535", "65536", "4294967295", "4294967296",
        "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1e3", "1e400", "-1e-400", "0.1", "1.0", "NaN", "Infinity",
        "99999999999999999999999999999999999999999999", "\"1\"", "null", "true", "[]", "{}", "[1,2]", "\"\\ud800\"", "\"\u{0}\"",
    ])
    .to_string()
}

fn mutate_text(r: &mut Rng, text: &str) -> String {
    let mut b: Vec<u8> = text.bytes().collect();
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = r.usize(b.len());
        match r.below(9) {
            0 => b[i] = r.below(256) as u8,
            1 => b[i] = *r.pick(b"0123456789-+.eE\"{}[],:tfn \\u"),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, *r.pick(b"0123456789-+.eE\"{}[],:tfn \\u")),
            4 => b.truncate(i),
            5 => {
                let j = r.usize(b.len());
                let (x, y) = (i.min(j), i.max(j));
                let part: Vec<u8> = b[x..y].to_vec();
                if part.len() < 4000 {
                    for (k, c) in part.into_iter().enumerate() {
                        b.insert(y + k, c);
                    }
                }
            }
            6 => {
                let j = r.usize(b.len());
                b.drain(i.min(j)..i.max(j));
            }
            _ => {
                // another number in the place of one
                if let Some(s) = (i..b.len()).find(|k| b[*k].is_ascii_digit()) {
                    let e = (s..b.len()).find(|k| !b[*k].is_ascii_digit()).unwrap_or(b.len());
                    let n = fuzz_number(r);
                    b.splice(s..e, n.bytes());
                }
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn read_any(case: &mut Case, text: &str) -> Result<(Result<Models, FromClipboardTextErr>, Result<ExportedProject, FromClipboardTextErr>), Fail> {
    case.at(|| format!("text {:?}", text.chars().take(4000).collect::<String>()));
    let show = || text.chars().take(700).collect::<String>();
    let a = match caught(|| Models::from_clipboard_text(text.to_string())) {
        Ok(a) => a,
        Err(p) => return fail(format!("crash {}", p.rsplit(" at ").next().unwrap_or("")), format!("reading {:?} crashed: {}", show(), p)),
    };
    let b = match caught(|| ExportedProject::from_clipboard_text(text.to_string())) {
        Ok(a) => a,
        Err(p) => return fail(format!("crash project {}", p.rsplit(" at ").next().unwrap_or("")), format!("reading the project {:?} crashed: {}", show(), p)),
    };
    case.evals(2);
    if let Ok(m) = &a {
        match caught(|| illegal(m)) {
            Ok(None) => {}
            Ok(Some(x)) => return fail("illegal accepted", format!("an item with {} was accepted from {:?}", x, show())),
            Err(p) => return fail("crash using", format!("an item accepted from {:?} cannot be used: {}", show(), p)),
        }
        case.count("accepted", 1);
        case.nontrivial(hash_bytes(text.as_bytes()));
    } else {
        case.count("refused", 1);
    }
    if let Ok(p) = &b {
        if let Some(x) = p.rhythm.and_then(illegal_rhythm) {
            return fail("illegal project", format!("a project with {} was accepted from {:?}", x, show()));
        }
        if let Some(k) = p.key {
            ensure!(k.offset().abs() <= 7, "illegal project", "a project with {:?} was accepted from {:?}", k, show());
        }
        let m = p.clone().to_models();
        match caught(|| illegal(&m)) {
            Ok(None) => {}
            Ok(Some(x)) => return fail("illegal accepted", format!("a project item with {} was accepted from {:?}", x, show())),
            Err(p) => return fail("crash using", format!("a project item accepted from {:?} cannot be used: {}", show(), p)),
        }
    }
    for (e, f) in [(a.as_ref().err(), "Models"), (b.as_ref().err(), "ExportedProject")] {
        if let Some(e) = e {
            match e {
                FromClipboardTextErr::CannotParse { detail, .. } => ensure!(!detail.is_empty(), "no detail", "{} error without detail", f),
                FromClipboardTextErr::VersionErr { detected_ver } => ensure!(*detected_ver != Models::VERSION, "own version", "version {} refused as wrong", detected_ver),
                _ => {}
            }
        }
    }
    Ok((a, b))
}

fn class(e: &FromClipboardTextErr) -> &'static str {
    match e {
        FromClipboardTextErr::VersionErr { .. } => "wrong version",
        FromClipboardTextErr::CannotParse { .. } => "unparsable",
        FromClipboardTextErr::EmptyString => "empty",
        FromClipboardTextErr::VersionNotU64 { .. } => "version not a number",
    }
}

fn c15(case: &mut Case) -> R {
    let m = any_models(&mut case.rng);
    let text = m.to_clipboard_text();
    let whole = format!("1{}", serde_json::to_string(&ExportedProject {
        key: Some(gen::key(&mut case.rng)), rhythm: Some(gen::rhythm(&mut case.rng)),
        notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone(),
    }).unwrap());
    for base in [&text, &whole] {
        for _ in 0..10 {
            let t = mutate_text(&mut case.rng, base);
            read_any(case, &t)?;
        }
        let j: Value = serde_json::from_str(&base[1..]).unwrap();
        for _ in 0..14 {
            let mut k = j.clone();
            for _ in 0..*case.rng.pick(&[1, 1, 1, 2, 4]) {
                mutate_json(&mut case.rng, &mut k);
            }
            let t = format!("1{}", k);
            read_any(case, &t)?;
        }
    }
    // texts whose answer is known
    let tail = if case.rng.chance(1, 2) { text[1..].to_string() } else { String::new() };
    let v = match case.rng.below(3) {
        0 => case.rng.below(10),
        1 => case.rng.u64(),
        _ => *case.rng.pick(&[0, 2, u64::MAX, u32::MAX as u64 + 2]),
    };
    let blank: String = (0..case.rng.below(5)).map(|_| *case.rng.pick(&[' ', '\n', '\t', '\r'])).collect();
    let notnum = case.rng.pick(&["-1", "1.5", "\"1\"", "null", "true", "[1]", "{}", "-5", "1e400x", "1.0", "18446744073709551616"]).to_string();
    for (t, want) in [
        (blank.clone(), "empty"),
        (format!("{}{} {}", blank, v, tail), if v == 1 { "" } else { "wrong version" }),
        (format!("{}{}", blank, notnum), if notnum == "1e400x" { "unparsable" } else { "version not a number" }),
        ("hello".to_string(), "unparsable"),
        (format!("1{}", "["), "unparsable"),
        ("1".to_string(), "unparsable"),
        (format!("1{}x", &text[1..]), "unparsable"),
    ] {
        if want.is_empty() {
            continue;
        }
        let (a, b) = read_any(case, &t)?;
        for (e, who) in [(a.err(), "selection"), (b.err(), "project")] {
            match e {
                None => return fail("accepted", format!("{:?} is accepted as a {}, expected: {}", t, who, want)),
                Some(e) => {
                    ensure!(class(&e) == want, "error class", "{:?} as a {} is reported as {:?}, expected: {}", t, who, e, want);
                    if let FromClipboardTextErr::VersionErr { detected_ver } = e {
                        ensure!(detected_ver == v, "version reported", "version {} is reported as {}", v, detected_ver);
                    }
                }
            }
        }
    }
    // anything at all
    let n = case.rng.below(60);
    let junk: String = (0..n).map(|_| char::from_u32(match case.rng.below(3) { 0 => case.rng.below(128) as u32, 1 => case.rng.below(0x800) as u32, _ => case.rng.below(0x11_0000) as u32 }).unwrap_or('\u{fffd}')).collect();
    read_any(case, &junk)?;
    read_any(case, &format!("1{}", junk))?;
    if case.idx % 50 == 0 {
        for (open, close) in [("[", "]"), ("{\"notes\":", "}"), ("[{\"a\":", "}]")] {
            let d = *case.rng.pick(&[100usize, 127, 128, 129, 5000, 60_000]);
            read_any(case, &format!("1{}{}", open.repeat(d), close.repeat(d)))?;
            read_any(case, &format!("{}{}", open.repeat(d), close.repeat(d)))?;
            read_any(case, &format!("1{{\"notes\":{}{}}}", "[".repeat(d), "]".repeat(d)))?;
        }
    }
    case.sample(|| json!({"text": text.chars().take(200).collect::<String>()}));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C16

fn through<T: Serialize + DeserializeOwned>(case: &mut Case, what: &str, v: &T, form: u8) -> Result<T, Fail> {
    case.eval();
    let r = caught(|| -> Result<T, String> {
        match form {
            0 => {
                let b = bincode::serialize(v).map_err(|e| e.to_string())?;
                bincode::deserialize(&b).map_err(|e| e.to_string())
            }
            1 => {
                let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
                serde_json::from_str(&s).map_err(|e| e.to_string())
            }
            2 => {
                let s = serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?;
                serde_json::from_slice(&s).map_err(|e| e.to_string())
            }
            3 => {
                let mut b = vec![];
                bincode::serialize_into(&mut b, v).map_err(|e| e.to_string())?;
                bincode::deserialize_from(&b[..]).map_err(|e| e.to_string())
            }
            _ => {
                let s = serde_json::to_value(v).map_err(|e| e.to_string())?;
                serde_json::from_value(s).map_err(|e| e.to_string())
            }
        }
    });
    let form = ["bincode", "JSON", "pretty JSON", "bincode stream", "JSON tree"][form as usize];
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => fail(format!("{} refused", what), format!("{} cannot be read back from {}: {}", what, form, e)),
        Err(p) => fail(format!("{} crash", what), format!("{} through {} crashed: {}", what, form, p)),
    }
}

fn same<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug, K: PartialEq + std::fmt::Debug>(case: &mut Case, what: &str, v: &T, rec: impl Fn(&T) -> K) -> R {
    for form in 0..5u8 {
        let w = through(case, what, v, form)?;
        ensure!(w == *v, format!("{} unequal", what), "{:?} became {:?} (form {})", v, w, form);
        ensure!(rec(&w) == rec(v), format!("{} changed", what), "{:?} {:?} became {:?} {:?} (form {})", v, rec(v), w, rec(&w), form);
    }
    Ok(())
}

fn pitch_rec(p: &Pitch) -> Rec {
    vec![solfa_no(p.solfa()), p.octave().value() as i64, sf_no(p.sharp_flat()), p.value() as i64, p.score_offset() as i64]
}
fn dur_rec(d: &Duration) -> Rec {
    vec![num_no(d.numerator), d.denominator.value() as i64, d.dots.value() as i64, d.tick_length() as i64]
}
fn trim_rec(t: &Trimmer) -> Rec {
    let mut v: Rec = t.to_array().iter().map(|x| *x as i64).collect();
    v.extend((0..4).map(|i| t.value(i) as i64));
    v.push(t.sum() as i64);
    v
}
fn rate_rec(t: &RateTrimmer) -> Rec {
    let mut v: Rec = (0..4).map(|i| permille(t.value(i))).collect();
    v.push(permille(t.sum()));
    v.push(t.apply(1_000_000u32) as i64);
    v
}

/// All values of the enumerable types.
fn c16_values(case: &mut Case) -> R {
    for s in Solfa::ALL {
        same(case, "note name", s, |s| s.score_offset())?;
        for o in Octave::ALL {
            for f in gen::SHARP_FLATS {
                if let Ok(p) = Pitch::value_of(*s, *o, f) {
                    same(case, "pitch", &p, pitch_rec)?;
                }
            }
        }
    }
    for o in Octave::ALL {
        same(case, "octave", o, |o| o.value())?;
    }
    for f in gen::SHARP_FLATS {
        same(case, "accidental", &f, |f| sf_no(*f))?;
    }
    for n in gen::NUMERATORS {
        same(case, "note value", &n, |n| n.ord())?;
        for d in 2..=255u8 {
            let den = Denominator::from_value(d).unwrap();
            same(case, "tuplet divisor", &den, |d| d.value())?;
            for t in 0..8u8 {
                same(case, "duration", &Duration::new(n, den, Dots::from_value(t).unwrap()), dur_rec)?;
            }
        }
    }
    for t in 0..8u8 {
        same(case, "dots", &Dots::from_value(t).unwrap(), |d| d.value())?;
    }
    for v in 0..=2000u16 {
        same(case, "percentage", &PercentU16::from_value(v), |p| permille(*p))?;
    }
    for v in 0..=127u8 {
        same(case, "velocity", &Velocity::new(v), |v| v.as_u8())?;
    }
    for v in 0..16u8 {
        same(case, "channel", &Channel::new(v), |v| v.as_u8())?;
    }
    for v in 1..=999u16 {
        same(case, "tempo value", &TempoValue::new(v), |v| v.as_u16())?;
    }
    for k in Key::ALL {
        same(case, "key", &k, |k| (k.offset(), k.is_flat(), k.is_sharp()))?;
    }
    for n in 1..=99u8 {
        for d in [2, 4, 8, 16, 32, 64] {
            let r = Rhythm::new(n, d);
            same(case, "rhythm", &r, |r| (rhythm_rec(*r), r.tick_len()))?;
            same(case, "rhythm numerator", &r.numerator(), |n| n.value())?;
            same(case, "rhythm denominator", &r.denominator(), |n| n.value())?;
        }
    }
    for bits in 0..2048u32 {
        let s: RepeatSet = serde_json::from_value(json!({ "value": bits })).unwrap();
        same(case, "mark set", &s, |s| (set_bits(|r| s.contains(r)), s.len(), s.region_index().map(|v| v.value())))?;
    }
    for r in gen::REPEATS {
        same(case, "mark", &r, |r: &Repeat| r.to_string())?;
    }
    for v in 1..=4u8 {
        same(case, "ending number", &VarIndex::from_value(v).unwrap(), |v| v.value())?;
    }
    for g in (1..=2000u32).chain([65535, 65536, u32::MAX - 1, u32::MAX]) {
        same(case, "grid", &Grid::from_u32(g).unwrap(), |g| (g.as_u32(), g.snap(1_000_003)))?;
    }
    case.count("enumerable values completely", 1);
    Ok(())
}

fn project_json(r: &mut Rng, m: &Models) -> Value {
    json!({
        "rhythm": gen::rhythm(r), "key": gen::key(r), "grid": gen::grid(r), "models": m,
    })
}

fn show_project(p: &ProjectImpl) -> (Snap, Vec<i64>) {
    let snap = Snap::of(p);
    // what it answers when asked
    let mut ticks: Vec<u32> = vec![0, 1, 959, 960, 961, 5000, 100_000];
    for (k, _) in p.bar_repo().iter() {
        ticks.extend([*k, k.saturating_sub(1)]);
    }
    for (k, _) in p.tempo_repo().iter() {
        ticks.extend([*k, k.saturating_sub(1)]);
    }
    for (k, _) in p.dumper_repo().iter().chain(p.soft_repo().iter()) {
        ticks.push(*k);
    }
    let mut v = vec![];
    for t in ticks {
        v.push(p.tempo_at(t).as_u16() as i64);
        v.push(p.dumper_at(t).as_u8() as i64);
        v.push(p.soft_at(t).as_u8() as i64);
        v.push(rhythm_rec(p.rhythm_at(t)).0);
        v.push(rhythm_rec(p.rhythm_at(t)).1);
        v.push(p.key_at(t).offset() as i64);
        let l = p.tick_to_location(t);
        v.push(l.bar_no() as i64);
        v.push(l.offset() as i64);
    }
    for (_, b) in p.bar_repo().iter() {
        v.push(p.bar_no(b).map(|n| n as i64).unwrap_or(-1));
    }
    (snap, v)
}

fn c16_project(case: &mut Case, p: &ProjectImpl, origin: &str) -> R {
    let want = show_project(p);
    for form in 0..5u8 {
        let q: ProjectImpl = through(case, "project", p, form)?;
        let got = show_project(&q);
        ensure!(got.0 == want.0, "project content", "a project {} became different: {}", origin, want.0.diff(&got.0, "before", "after"));
        ensure!(got.1 == want.1, "project behaviour", "a project {} answers differently after serialisation", origin);
    }
    if want.0.items() > 0 {
        case.sample(|| json!({"project": origin, "notes": want.0.notes.len(), "bars": want.0.bars.len(), "first note": format!("{:?}", want.0.notes.first())}));
        case.nontrivial(want.0.hash64());
    }
    case.count("projects", 1);
    Ok(())
}

fn c16(case: &mut Case) -> R {
    if case.idx == 0 {
        return c16_values(case);
    }
    if case.idx % 8 == 1 {
        // a project that came about by editing
        let mut cfg = session::random_cfg(&mut case.rng, session::Mon::default());
        cfg.ops = cfg.ops.min(25);
        let dir = session::fresh_dir(case, "p");
        let mut s = session::run_session(case, &cfg, dir.clone())?;
        c16_project(case, s.model(), "made by edits")?;
        s.close()?;
        let _ = std::fs::remove_dir_all(&dir);
        case.count("projects made by edits", 1);
        return Ok(());
    }
    let giant = case.idx % 6000 == 13;
    for _ in 0..if giant { 1 } else { 6 } {
        let max = *case.rng.pick(&[960u32, 8000, 2_000_000_000]);
        let t = Ticks::new(&mut case.rng, max);
        let wild = case.rng.chance(1, 2);
        let mut m = if giant { giant_models(case) } else { gen::models(&mut case.rng, &t, wild, 6) };
        // rhythm changes in places where a location is defined
        m.bars.sort_by_key(|b| b.start_tick);
        let j = project_json(&mut case.rng, &m);
        case.at(|| format!("project {}", j));
        let p: ProjectImpl = match caught(|| serde_json::from_value(j.clone())) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return fail("project refused", format!("a project cannot be read from {}: {}", j, e)),
            Err(p) => return fail("project crash", format!("reading {} crashed: {}", j, p)),
        };
        // what went in is there: notes as a bag, the others by tick (the last of a tick stays)
        let snap = Snap::of(&p);
        let mut notes: Vec<Rec> = m.notes.iter().map(note_rec).collect();
        notes.sort();
        let mut got: Vec<Rec> = snap.notes.iter().map(|x| x.1.clone()).collect();
        got.sort();
        ensure!(notes == got, "notes lost", "{} notes were read as {}", notes.len(), got.len());
        c16_project(case, &p, "read from JSON")?;
        for n in &m.notes {
            same(case, "note", n, note_rec)?;
            same(case, "trimmer", &n.start_tick_trimmer, trim_rec)?;
            same(case, "rate", &n.duration_trimmer, rate_rec)?;
        }
        for b in &m.bars {
            same(case, "bar", b, bar_rec)?;
        }
        for t in &m.tempos {
            same(case, "tempo", t, tempo_rec)?;
        }
        for c in m.dumpers.iter().chain(&m.softs) {
            same(case, "pedal change", c, ctrl_rec)?;
        }
        same(case, "selection", &m, recs)?;
        let ex = ExportedProject {
            key: Some(gen::key(&mut case.rng)), rhythm: None,
            notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone(),
        };
        same(case, "exported project", &ex, |e| (e.key.map(|k| k.offset()), recs(&e.clone().to_models())))?;
        for _ in 0..20 {
            let t = Trimmer::new(gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng), gen::i16_any(&mut case.rng));
            same(case, "trimmer", &t, trim_rec)?;
            let q = [gen::percent(&mut case.rng), gen::percent(&mut case.rng), gen::percent(&mut case.rng), gen::percent(&mut case.rng)];
            same(case, "rate", &RateTrimmer::from_array(q), rate_rec)?;
            let (q, g) = (gen::rate(&mut case.rng), gen::grid(&mut case.rng));
            same(case, "rate", &q, rate_rec)?;
            same(case, "grid", &g, |g| g.as_u32())?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C17

fn c17(case: &mut Case) -> R {
    let giant = case.idx % 50_000 == 13;
    for _ in 0..if giant { 1 } else { 60 } {
        let mut m = if giant { giant_models(case) } else { any_models(&mut case.rng) };
        // any order, not the generator's
        case.rng.shuffle(&mut m.notes);
        case.rng.shuffle(&mut m.bars);
        case.rng.shuffle(&mut m.tempos);
        case.rng.shuffle(&mut m.dumpers);
        case.rng.shuffle(&mut m.softs);
        let ticks: Vec<u32> = m.notes.iter().map(|n| n.base_start_tick)
            .chain(m.bars.iter().map(|b| b.start_tick))
            .chain(m.tempos.iter().map(|b| b.start_tick))
            .chain(m.dumpers.iter().map(|b| b.start_tick))
            .chain(m.softs.iter().map(|b| b.start_tick))
            .collect();
        let (lo, hi) = (ticks.iter().min().copied(), ticks.iter().max().copied());
        let room = match (lo, hi) {
            (Some(l), Some(h)) => u32::MAX - (h - l),
            _ => u32::MAX,
        };
        let target = match case.rng.below(6) {
            0 => 0,
            1 => room,
            2 => lo.unwrap_or(5).min(room),
            3 => case.rng.range(0, room as i64) as u32,
            _ => case.rng.range(0, (room as i64).min(10_000)) as u32,
        };
        case.at(|| format!("move to {}: {:?}", target, m));
        case.eval();
        let got = match caught(|| m.clone().move_to_tick(target)) {
            Ok(g) => g,
            Err(p) => return fail("crash", format!("moving {:?} to {} crashed: {}", m, target, p)),
        };
        let d = target as i64 - lo.unwrap_or(target) as i64;
        let sh = |t: u32| (t as i64 + d) as u32;
        let want = Models {
            notes: m.notes.iter().map(|n| Note { base_start_tick: sh(n.base_start_tick), ..n.clone() }).collect(),
            bars: m.bars.iter().map(|b| Bar { start_tick: sh(b.start_tick), ..*b }).collect(),
            tempos: m.tempos.iter().map(|b| Tempo { start_tick: sh(b.start_tick), ..*b }).collect(),
            dumpers: m.dumpers.iter().map(|b| CtrlChg { start_tick: sh(b.start_tick), ..*b }).collect(),
            softs: m.softs.iter().map(|b| CtrlChg { start_tick: sh(b.start_tick), ..*b }).collect(),
        };
        // the order of the items within a selection is not told by the statement
        let key = |m: &Models| {
            let mut r = recs(m);
            for v in r.iter_mut() {
                v.sort();
            }
            r
        };
        ensure!(key(&got) == key(&want), "not rigid", "moving to {} (by {}): {}", target, d, first_diff(&key(&want), &key(&got)));
        if lo.is_some() && d != 0 {
            case.nontrivial(hash_bytes(format!("{:?}{:?}", ticks, target).as_bytes()));
        }
        case.count(if lo.is_none() { "empty selections" } else { "selections" }, 1);
        case.sample(|| json!({"ticks": ticks, "target": target}));
    }
    Ok(())
}

pub fn defs() -> Vec<CheckDef> {
    vec![
        CheckDef {
            id: "C14", rule: "a case is 12 random selections (all attribute combinations, extreme trimmers and rates included) copied, pasted, imported as an exported project and exported with and without key and rhythm; every attribute and derived value is compared; non-trivial: distinct non-empty texts",
            assumptions: &[], quick: 100000, thorough_s: Some(420), finite: None, threads: 8, run: c14,
        },
        CheckDef {
            id: "C15", rule: "a case is about 60 texts: byte and number mutations and value-by-value mutations of genuine texts, texts with a known error, arbitrary Unicode, deep nesting; both readers are observed for crashes, error kinds and legality of whatever is accepted; non-trivial: distinct accepted texts",
            assumptions: &[], quick: 50000, thorough_s: Some(420), finite: None, threads: 8, run: c15,
        },
        CheckDef {
            id: "C16", rule: "case 0 sends every value of the enumerable types through five serialised forms (bincode and JSON); every eighth case a project made by random edits, the others projects read from random content, with their items, trimmers and rates; attributes, derived values and look-ups are compared; non-trivial: distinct non-empty projects",
            assumptions: &[], quick: 12000, thorough_s: Some(420), finite: None, threads: 8, run: c16,
        },
        CheckDef {
            id: "C17", rule: "a case is 60 random selections in random order moved to ticks at and between the limits; every item is compared with its shifted self; non-trivial: distinct (ticks, target) that move something",
            assumptions: &["the shifted ticks fit 32 bits"], quick: 300000, thorough_s: Some(420), finite: None, threads: 8, run: c17,
        },
    ]
}
