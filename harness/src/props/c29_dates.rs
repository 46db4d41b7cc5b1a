//! C29: dates are the moment that is written.

use crate::common::*;
use crate::dates::{days, Moment};
use crate::engine::*;
use crate::{check, htmlmodel};
use serde_json::json;

pub const PROP: Property = Property {
    id: "C29",
    quick_cases: 400_000,
    thorough_cases: 6_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "a date with an offset or a fraction, or that is no date",
    assumptions: &["dates have four digits for the year, offsets are less than a day, no leap seconds"],
    run,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Date,
    Time,
    Zoned,
}

struct Written {
    text: String,
    /// None if it is not a date.
    value: Option<(Moment, Kind, String)>,
}

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn month_days(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + i64::from(leap(y)),
        _ => 31,
    }
}

fn num(src: &mut Src, lo: i64, hi: i64, wrong: bool) -> i64 {
    if wrong && src.chance(1, 12) {
        (*src.pick(&[hi + 1, hi + 2, 99, lo - 1])).max(0)
    } else if src.chance(1, 4) {
        *src.pick(&[lo, hi])
    } else {
        lo + src.below((hi - lo + 1) as usize) as i64
    }
}

/// A date in one of its forms, its text in the basic or the extended form.
fn date(src: &mut Src, basic: bool, wrong: bool) -> (String, Option<(i64, i64, i64)>) {
    let year = match src.below(8) {
        0 => src.below(10_000) as i64,
        1 => *src.pick(&[0, 1, 1582, 1900, 1899, 2000, 9999, 1970, 1969]),
        _ => 1900 + src.below(200) as i64,
    };
    let sep = if basic { "" } else { "-" };
    match src.weighted(&[8, 2, 2]) {
        0 => {
            let month = num(src, 1, 12, wrong);
            let last = month_days(year, month.clamp(1, 12));
            let day = num(src, 1, last, wrong);
            let ok = (1..=12).contains(&month) && (1..=last).contains(&day);
            (format!("{year:04}{sep}{month:02}{sep}{day:02}"), ok.then_some((year, month, day)))
        }
        1 => {
            // Day of the year.
            let last = 365 + i64::from(leap(year));
            let n = num(src, 1, last, wrong);
            let ok = (1..=last).contains(&n);
            (format!("{year:04}{sep}{n:03}"), ok.then(|| crate::dates::civil(days(year, 1, 1) + n - 1)))
        }
        _ => {
            // Day of a week: the first has the 4th of January.
            let year = year.clamp(2, 9998);
            let monday = days(year, 1, 4) - (days(year, 1, 4) + 3).rem_euclid(7);
            let next = days(year + 1, 1, 4) - (days(year + 1, 1, 4) + 3).rem_euclid(7);
            let weeks = (next - monday) / 7;
            let week = num(src, 1, weeks, wrong);
            let day = num(src, 1, 7, wrong);
            let ok = (1..=weeks).contains(&week) && (1..=7).contains(&day);
            (format!("{year:04}{sep}W{week:02}{sep}{day}"), ok.then(|| crate::dates::civil(monday + (week - 1) * 7 + day - 1)))
        }
    }
}

fn written(src: &mut Src) -> Written {
    match src.weighted(&[2, 3, 5, 8, 1]) {
        0 => {
            let t = match src.below(5) {
                0 => *src.pick(&[0i64, -1, 1, 253_402_300_799, 253_402_300_800, -377_705_116_800, -377_705_116_801, i64::MAX, i64::MIN, -62_167_219_200]),
                1 => src.below(10_000_000) as i64,
                2 => -(src.below(2_000_000_000) as i64),
                _ => src.below(4_000_000_000) as i64,
            };
            let plus = if t >= 0 && src.chance(1, 8) { "+" } else { "" };
            let zeros = if t >= 0 && src.chance(1, 8) { "00" } else { "" };
            let ok = (-377_705_116_800..=253_402_300_799).contains(&t);
            Written { text: format!("{plus}{zeros}{t}"), value: ok.then(|| (Moment::from_unix(t), Kind::Zoned, String::new())) }
        }
        1 => {
            let (text, d) = date(src, false, true);
            let value = d.map(|(year, month, day)| (Moment { year, month, day, hour: 0, minute: 0, second: 0, offset: 0 }, Kind::Date, String::new()));
            Written { text, value }
        }
        4 => Written { text: src.pick_str(&["2001-09", "never", "2001/09/11", "1.5", "9/11/2001", "2001-9-1", "01-01-2001", "T10:00:00", "10:00", "2001-09-11T", "2001-09-11Tx", "99999999999999999999", "0x10", "-", "2001-09-11x", "1e9", "１２３", "tomorrow", "@123", "+@5", "123s", "+-5", "#5", "5.", "2001-09-11+", "x2001-09-11", "@2001-09-11"]).into(), value: None },
        k => {
            let zoned = k == 3;
            let basic = src.chance(1, 4);
            let (d, v) = date(src, basic, true);
            let (hour, minute, second) = (num(src, 0, 23, true), num(src, 0, 59, true), num(src, 0, 59, true));
            // 24:00 and 60 seconds may be valid in some places.
            let odd = hour == 24 || second == 60;
            let sep = if basic { "" } else { ":" };
            let seconds = src.chance(3, 4);
            let mut text = format!("{d}T{hour:02}{sep}{minute:02}");
            let mut fraction = String::new();
            if seconds {
                text += &format!("{sep}{second:02}");
                if src.chance(1, 3) {
                    let n = src.range(1, 9);
                    fraction = (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect();
                    text += &format!("{}{fraction}", src.pick_str(&[".", ","]));
                }
            }
            let mut valid = hour <= 23 && minute <= 59 && (!seconds || second <= 59) && !odd;
            let mut offset = 0;
            if zoned {
                if src.chance(1, 3) {
                    text += "Z";
                } else {
                    let (h, m) = (num(src, 0, 23, false), *src.pick(&[0, 0, 30, 45, 59]));
                    let hours_only = m == 0 && src.chance(1, 4);
                    let neg = src.bool();
                    offset = (h * 3600 + m * 60) * if neg { -1 } else { 1 };
                    text += if neg { "-" } else { "+" };
                    text += &if hours_only { format!("{h:02}") } else { format!("{h:02}{sep}{m:02}") };
                }
            }
            let value = match v {
                Some((year, month, day)) if valid => Some((Moment { year, month, day, hour, minute, second: if seconds { second } else { 0 }, offset }, if zoned { Kind::Zoned } else { Kind::Time }, fraction)),
                _ => None,
            };
            valid &= value.is_some();
            if odd && v.is_some() && !valid {
                // Not judged.
                return Written { text: "never".into(), value: None };
            }
            Written { text, value }
        }
    }
}

/// An offset, and its seconds if it is valid.
fn timezone(src: &mut Src) -> (String, Option<i64>) {
    let sign = src.pick_str(&["", "+", "-"]);
    let s = if sign == "-" { -1 } else { 1 };
    let (text, seconds) = match src.below(5) {
        0 => {
            let (h, m) = (src.below(30) as i64, src.below(70) as i64);
            (format!("{h:02}:{m:02}"), Some(h * 3600 + m * 60))
        }
        1 => {
            let (h, m) = (src.below(24) as i64, src.below(60) as i64);
            (format!("{h}{m:02}"), Some(h * 3600 + m * 60))
        }
        2 => {
            let h = src.below(30) as i64;
            (h.to_string(), Some(h * 3600))
        }
        3 => {
            // In seconds: five digits, as fewer are hours and minutes.
            let n = 10_000 + src.below(90_000) as i64;
            (n.to_string(), Some(n))
        }
        _ => (src.pick_str(&["moon", "", "8:0", "UTC", "Z", "1:2:3", "+", "8.5", "8 :00", "123456789", "-", "00800000", "99999999999", "+-8"]).to_string(), None),
    };
    let seconds = seconds.filter(|n| *n <= 25 * 3600 + 59 * 60 + 59).map(|n| n * s);
    let text = format!("{sign}{text}");
    let seconds = if text.trim_start_matches(['+', '-']) == "00800000" { None } else { seconds };
    (text, seconds)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = written(src);
    let mut valid = w.value.is_some();
    let mut moment = w.value.clone();
    let mut args = vec![];
    if src.chance(1, 3) {
        let (t, seconds) = timezone(src);
        args.push(format!("{}=\"{t}\"", src.pick_str(&["tz", "TZ"])));
        match (&mut moment, seconds) {
            (Some((m, k, _)), Some(n)) if *k != Kind::Zoned => {
                m.offset = n;
                *k = Kind::Zoned;
            }
            _ => valid = false,
        }
    }
    let mut format = None;
    if src.chance(1, 6) {
        let f = src.pick_str(&["%Y", "", "%d. %m.|agohover", "x"]);
        args.push(format!("format=\"{f}\""));
        format = Some(f);
    }
    let mut hover = true;
    if src.chance(1, 4) {
        let (t, b) = *src.pick(&[("true", Some(true)), ("false", Some(false)), ("No", Some(false)), ("YES", Some(true)), ("0", Some(false)), ("1", Some(true)), ("f", Some(false)), ("T", Some(true)), (" no ", Some(false)), ("maybe", None), ("", None), ("2", None)]);
        args.push(format!("hover=\"{t}\""));
        match b {
            Some(b) => hover = b,
            None => valid = false,
        }
    }
    if src.bool() {
        args.reverse();
    }
    let head: String = args.iter().map(|a| format!(" {a}")).collect();
    let text = format!("x [[{} {}{head}]] y", src.pick_str(&["date", "date", "Date"]), w.text);
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (info, settings) = (info(), page_settings());
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let found = elements(&tree);
    if !valid {
        cx.label("invalid");
        let want = [container(json!("paragraph"), json!({}), vec![text_el(&text)])];
        check!(found == want, "invalid", "not text: {found:?}");
        check!(!errors.is_empty(), "invalid", "no error for an invalid date");
        cx.nontrivial_if(true);
        return Ok(());
    }
    let (m, kind, fraction) = moment.unwrap();
    cx.label(match kind {
        Kind::Date => "date",
        Kind::Time => "time",
        Kind::Zoned => "with an offset",
    });
    let inner = found[0]["data"]["elements"].as_array().cloned().unwrap_or_default();
    check!(found.len() == 1 && inner.len() == 3 && inner[1]["element"] == "date", "no-date", "not a date: {found:?}\nerrors: {errors:?}");
    let d = &inner[1]["data"];
    let value = d["value"].as_str().unwrap_or_default();
    let parts = value.split(' ').count();
    let want_parts = match kind {
        Kind::Date => 1,
        Kind::Time => 2,
        Kind::Zoned => 3,
    };
    check!(parts == want_parts, "kind", "{value} for a {kind:?}");
    check!(Moment::from_json(value) == Some(m), "value", "{value}, wanted {m:?}");
    let digits = value.split(' ').nth(1).and_then(|t| t.split_once('.')).map_or("", |(_, f)| f).trim_end_matches('0');
    check!(digits == fraction.trim_end_matches('0'), "fraction", "{value}, wanted the fraction {fraction:?}");
    check!(d["hover"] == json!(hover) && d["format"] == json!(format), "arguments", "{d}, wanted hover {hover} and format {format:?}");
    let (out, _) = htmlmodel::judge(&tree, &info, &settings)?;
    check!(out.body.contains(&format!("data-timestamp=\"{}\"", m.unix())), "timestamp", "{} is not in {}", m.unix(), out.body);
    if (1900..=9999).contains(&m.year) && m.offset % 60 == 0 {
        let shown = crate::common::text(&tree, &info, &settings);
        check!(shown == format!("x {} y", m.shown()), "text", "{shown:?}, wanted {:?}", m.shown());
    }
    cx.nontrivial_if(kind == Kind::Zoned || !fraction.is_empty());
    Ok(())
}
