//! Calendar and clock: one question per case, the answers joined by spaces.
use logicaffeine_base::temporal::*;
use serde_json::{json, Value};

const DAY: i128 = 86_400_000_000_000;
const SEC: i128 = 1_000_000_000;
fn ns(k: &[i64]) -> i64 { i64::try_from(k[0] as i128 * DAY + k[1] as i128 * SEC + k[2] as i128).expect("representable") }
fn split(n: i64) -> String {
    let n = n as i128;
    let r = n.rem_euclid(DAY);
    format!("{} {} {}", n.div_euclid(DAY), r / SEC, r % SEC)
}
fn civil(c: CivilDateTime) -> String {
    format!("{} {} {} {} {} {} {}", c.year, c.month, c.day, c.hour, c.minute, c.second, c.nanosecond)
}
fn yes(b: bool) -> &'static str { if b { "TRUE" } else { "FALSE" } }
fn quote(s: &str) -> String { format!("\"{s}\"") }

pub fn case(v: &Value) -> Value {
    let k: Vec<i64> = v["k"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let text = v["s"].as_str().unwrap_or("");
    let tr: Vec<ZoneTransition> = v["tr"].as_array().into_iter().flatten().map(|t| {
        let n = |i: usize| t[i].as_i64().unwrap();
        ZoneTransition { at_unix_seconds: n(0) * 86400 + n(1), offset_seconds: n(2) as i32 }
    }).collect();
    json!(match v["o"].as_str().unwrap() {
        "date" => {
            let z = days_from_civil(k[0], k[1] as u32, k[2] as u32);
            let (y, m, d) = civil_from_days(z);
            let (iy, iw, id) = iso_week_from_days(z);
            format!("{z} {y} {m} {d} {} {} {} {iy} {iw} {id} {} {} {}", weekday_from_days(z), iso_weekday_from_days(z),
                day_of_year(k[0], k[1] as u32, k[2] as u32), days_from_iso_week(iy, iw, id), last_day_of_month(k[0], k[1] as u32), yes(is_gregorian_leap(k[0])))
        }
        "day" => {
            let (y, m, d) = civil_from_days(k[0]);
            let (jy, jm, jd) = julian_from_days(k[0]);
            format!("{y} {m} {d} {jy} {jm} {jd} {}", yes(is_weekend(k[0])))
        }
        "julian" => {
            let z = days_from_julian(k[0], k[1] as u32, k[2] as u32);
            let (y, m, d) = julian_from_days(z);
            format!("{z} {y} {m} {d} {}", yes(is_julian_leap(k[0])))
        }
        "nth" => nth_weekday_of_month(k[0], k[1] as u32, k[2] as u32, k[3] as u32).to_string(),
        "span" => {
            let dt = CivilDateTime { year: k[0], month: k[1] as u32, day: k[2] as u32, hour: 13, minute: 7, second: 59, nanosecond: 3 };
            let e = add_span(dt, k[3], k[4]);
            if (e.hour, e.minute, e.second, e.nanosecond) != (13, 7, 59, 3) { format!("clock moved: {}", civil(e)) } else { format!("{} {} {}", e.year, e.month, e.day) }
        }
        "between" => format!("{} {}", months_between(ns(&k[0..3]), ns(&k[3..6])), years_between(ns(&k[0..3]), ns(&k[3..6]))),
        "business" => format!("{} {}", business_days_between(k[0], k[1]), add_business_days(k[0], k[2])),
        "instant" => {
            let n = ns(&k);
            let c = civil_from_unix_nanos(n);
            let s = format_rfc3339(n);
            let back = parse_rfc3339(&s).map_or("none".into(), split);
            format!("{} {} {} {} {back}", civil(c), split(unix_nanos_from_civil(c)), quote(&s), quote(&format_time_of_day(n)))
        }
        "stamp" => parse_rfc3339(text).map_or("none".into(), split),
        "tai" => {
            let n = ns(&k);
            let s = n.div_euclid(SEC as i64);
            let (tai, tt) = (tai_nanos_from_unix_nanos(n), tt_nanos_from_unix_nanos(n));
            let back = tai_to_unix_seconds(unix_to_tai_seconds(s)) * SEC as i64 + n.rem_euclid(SEC as i64);
            format!("{} {} {} {} {}", tai_minus_utc(s), split(tai), split(tt), split(unix_nanos_from_tt_nanos(tt)), split(back))
        }
        "dur" => {
            let m = k[1] as i128 * DAY + k[2] as i128 * SEC + k[3] as i128;
            let n = i64::try_from(if k[0] == 1 { -m } else { m }).expect("representable");
            let s = format_duration(n);
            format!("{} {}", quote(&s), yes(parse_duration(&s) == Some(n)))
        }
        "durtext" => parse_duration(text).map_or("none".into(), |n| n.to_string()),
        "zone" => format!("{} {}", offset_at(&tr, k[0] as i32, ns(&k[1..4])), civil(to_local(&tr, k[0] as i32, ns(&k[1..4])))),
        "local" => {
            let c = civil_from_unix_nanos(ns(&k[1..4]));
            format!("{} {}", split(from_local(&tr, k[0] as i32, c, Fold::Earlier)), split(from_local(&tr, k[0] as i32, c, Fold::Later)))
        }
        _ => {
            let (n, z) = (ns(&k), v["zone"].as_str().unwrap());
            match (local_instant_nanos(n, z), format_zoned(n, z)) {
                (Some(l), Some(t)) => format!("{} {}", split(l), quote(&t)),
                (None, None) => "none".into(),
                (a, b) => format!("{a:?} {b:?}"),
            }
        }
    })
}
