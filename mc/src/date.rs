//! Date oracle: a civil calendar written from scratch, for the date forms and strftime specifiers that the
//! documentation promises. Everything else is `Unspec`.

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Ok(String),
    Bad,
    Unspec,
}

const MONTHS: [&str; 12] = [
    "January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
    "November", "December",
];
const DAYS: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Days since 1970-01-01, by counting years and months.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let before = |y: i64| (y - 1) * 365 + (y - 1).div_euclid(4) - (y - 1).div_euclid(100) + (y - 1).div_euclid(400);
    let mut n = before(y) - before(1970);
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1
}

pub struct Civil {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub yday: i64,
    pub wday: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}

pub fn civil(secs: i64) -> Civil {
    let day = secs.div_euclid(86400);
    let r = secs.rem_euclid(86400);
    let mut y = 1970 + day.div_euclid(if day < 0 { 365 } else { 366 }) - 1;
    while days(y + 1, 1, 1) <= day {
        y += 1;
    }
    let yday = day - days(y, 1, 1);
    let mut m = 1;
    let mut rest = yday;
    while rest >= month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    Civil { y, m, d: rest + 1, yday, wday: (day + 4).rem_euclid(7), h: r / 3600, mi: r / 60 % 60, s: r % 60 }
}

thread_local! {
    /// Week numbers as chrono 0.4.22 gives them (a known finding, see DESIGN.md).
    pub static WEEK_QUIRK: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn quirk() -> i64 {
    WEEK_QUIRK.with(|q| q.get() as i64)
}

#[derive(Debug, PartialEq)]
pub enum P {
    At(i64, u32),
    Bad,
    Unspec,
}

fn num(b: &[u8]) -> Option<i64> {
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(b).ok()?.parse().ok()
}

/// What moment a text denotes.
pub fn parse(t: &str) -> P {
    let b = t.as_bytes();
    if !t.bytes().any(|c| c.is_ascii_digit()) {
        // no digit at all cannot be any kind of date
        return if t.chars().all(|c| c.is_ascii()) { P::Bad } else { P::Unspec };
    }
    if t.contains('#') && !t.contains('(') {
        // no notation has this character; comments could
        return P::Bad;
    }
    if b.len() == 10 && b.iter().all(|c| c.is_ascii_digit()) {
        return P::At(num(b).unwrap(), 0);
    }
    // YYYY-MM-DD...
    if b.len() >= 10 && b[4] == b'-' && b[7] == b'-' && num(&b[..4]).is_some() && num(&b[5..7]).is_some() && num(&b[8..10]).is_some() {
        let (y, m, d) = (num(&b[..4]).unwrap(), num(&b[5..7]).unwrap(), num(&b[8..10]).unwrap());
        if y < 1 {
            return P::Unspec;
        }
        let good = (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m);
        let rest = &b[10..];
        if rest.is_empty() {
            return if good { P::At(days(y, m, d) * 86400, 0) } else { P::Bad };
        }
        let sep = rest[0];
        let r = &rest[1..];
        if (sep != b' ' && sep != b'T') || r.len() < 5 || r[2] != b':' {
            return P::Unspec;
        }
        let (Some(h), Some(mi)) = (num(&r[..2]), num(&r[3..5])) else { return P::Unspec };
        let mut s = 0;
        let mut nanos = 0u32;
        let mut i = 5;
        let mut has_s = false;
        if r.len() >= 8 && r[5] == b':' {
            let Some(x) = num(&r[6..8]) else { return P::Unspec };
            s = x;
            i = 8;
            has_s = true;
        }
        if has_s && r.len() > i && r[i] == b'.' {
            let j = i + 1 + r[i + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            let f = &r[i + 1..j];
            if f.is_empty() || f.len() > 9 {
                return P::Unspec;
            }
            nanos = num(f).unwrap() as u32 * 10u32.pow(9 - f.len() as u32);
            i = j;
        }
        if s == 60 {
            return P::Unspec;
        }
        let good = good && h < 24 && mi < 60 && s < 60;
        let local = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
        let tail = &r[i..];
        if sep == b' ' {
            // local forms are in UTC
            if !tail.is_empty() {
                return P::Unspec;
            }
            return if good { P::At(local, nanos) } else { P::Bad };
        }
        if !has_s {
            return P::Unspec;
        }
        let off = match tail {
            b"Z" => 0,
            [sg, a, bb, b':', c, dd] if (*sg == b'+' || *sg == b'-') => {
                let (Some(oh), Some(om)) = (num(&[*a, *bb]), num(&[*c, *dd])) else { return P::Unspec };
                if oh > 23 || om > 59 {
                    return P::Unspec;
                }
                (oh * 3600 + om * 60) * if *sg == b'-' { -1 } else { 1 }
            }
            _ => return P::Unspec,
        };
        return if good { P::At(local - off, nanos) } else { P::Bad };
    }
    // Month D, YYYY
    if let Some((mon, rest)) = t.split_once(' ') {
        if let Some((d, y)) = rest.split_once(", ") {
            let m = MONTHS.iter().position(|n| *n == mon || &n[..3] == mon);
            if let (Some(m), Some(d), Some(y)) = (m, num(d.as_bytes()), num(y.as_bytes())) {
                if rest.split_once(", ").unwrap().0.len() <= 2 && t.len() - t.rfind(' ').unwrap() == 5 && y >= 1000 {
                    let m = m as i64 + 1;
                    return if d >= 1 && d <= month_len(y, m) { P::At(days(y, m, d) * 86400, 0) } else { P::Bad };
                }
            }
        }
    }
    P::Unspec
}

fn pad(v: i64, w: usize, def: char, flag: Option<char>) -> String {
    let c = match flag {
        Some('-') => return v.to_string(),
        Some('_') => ' ',
        Some('0') => '0',
        _ => def,
    };
    let s = v.to_string();
    let mut o = String::new();
    for _ in s.len()..w {
        o.push(c);
    }
    o + &s
}

fn iso(c: &Civil) -> (i64, i64) {
    // the Thursday of the week decides the year
    let day = days(c.y, c.m, c.d);
    let th = day - (c.wday + 6) % 7 + 3;
    let t = civil(th * 86400);
    (t.y, t.yday / 7 + 1)
}

pub fn format(secs: i64, nanos: u32, f: &str) -> D {
    let c = civil(secs);
    let mut o = String::new();
    let ch: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] != '%' {
            o.push(ch[i]);
            i += 1;
            continue;
        }
        i += 1;
        let mut flag = None;
        if let Some(x @ ('-' | '_' | '0')) = ch.get(i) {
            flag = Some(*x);
            i += 1;
        }
        let Some(&k) = ch.get(i) else { return D::Bad };
        i += 1;
        let sub = |f: &str| match format(secs, nanos, f) {
            D::Ok(s) => s,
            _ => unreachable!(),
        };
        let h12 = if c.h % 12 == 0 { 12 } else { c.h % 12 };
        let numeric = "YCymdewuUWGgVjHkIlMS".contains(k);
        if flag.is_some() && !numeric {
            return D::Unspec;
        }
        let s = match k {
            'Y' => pad(c.y, 4, '0', flag),
            'C' => pad(c.y / 100, 2, '0', flag),
            'y' => pad(c.y % 100, 2, '0', flag),
            'm' => pad(c.m, 2, '0', flag),
            'b' | 'h' => MONTHS[c.m as usize - 1][..3].into(),
            'B' => MONTHS[c.m as usize - 1].into(),
            'd' => pad(c.d, 2, '0', flag),
            'e' => pad(c.d, 2, ' ', flag),
            'a' => DAYS[c.wday as usize][..3].into(),
            'A' => DAYS[c.wday as usize].into(),
            'w' => pad(c.wday, 1, '0', flag),
            'u' => pad(if c.wday == 0 { 7 } else { c.wday }, 1, '0', flag),
            'U' => pad((c.yday + quirk() + 7 - c.wday) / 7, 2, '0', flag),
            'W' => pad((c.yday + quirk() + 7 - (c.wday + 6) % 7) / 7, 2, '0', flag),
            'G' => pad(iso(&c).0, 4, '0', flag),
            'g' => pad(iso(&c).0 % 100, 2, '0', flag),
            'V' => pad(iso(&c).1, 2, '0', flag),
            'j' => pad(c.yday + 1, 3, '0', flag),
            'D' | 'x' => sub("%m/%d/%y"),
            'F' => sub("%Y-%m-%d"),
            'v' => sub("%e-%b-%Y"),
            'H' => pad(c.h, 2, '0', flag),
            'k' => pad(c.h, 2, ' ', flag),
            'I' => pad(h12, 2, '0', flag),
            'l' => pad(h12, 2, ' ', flag),
            'P' => if c.h < 12 { "am" } else { "pm" }.into(),
            'p' => if c.h < 12 { "AM" } else { "PM" }.into(),
            'M' => pad(c.mi, 2, '0', flag),
            'S' => pad(c.s, 2, '0', flag),
            'f' => format!("{:09}", nanos),
            '.' => match ch.get(i) {
                Some('f') => {
                    i += 1;
                    if nanos == 0 {
                        String::new()
                    } else if nanos % 1_000_000 == 0 {
                        format!(".{:03}", nanos / 1_000_000)
                    } else if nanos % 1000 == 0 {
                        format!(".{:06}", nanos / 1000)
                    } else {
                        format!(".{:09}", nanos)
                    }
                }
                Some(w @ ('3' | '6' | '9')) if ch.get(i + 1) == Some(&'f') => {
                    i += 2;
                    let w = w.to_digit(10).unwrap() as usize;
                    format!(".{}", &format!("{:09}", nanos)[..w])
                }
                _ => return D::Bad,
            },
            '3' | '6' | '9' => {
                if ch.get(i) != Some(&'f') {
                    return D::Bad;
                }
                i += 1;
                format!("{:09}", nanos)[..k.to_digit(10).unwrap() as usize].to_string()
            }
            'R' => sub("%H:%M"),
            'T' | 'X' => sub("%H:%M:%S"),
            'r' => sub("%I:%M:%S %p"),
            'Z' => "UTC".into(),
            'z' => "+0000".into(),
            ':' => match ch.get(i) {
                Some('z') => {
                    i += 1;
                    "+00:00".into()
                }
                _ => return D::Unspec,
            },
            'c' => sub("%a %b %e %H:%M:%S %Y"),
            '+' => sub("%Y-%m-%dT%H:%M:%S%.f%:z"),
            's' => secs.to_string(),
            't' => "\t".into(),
            'n' => "\n".into(),
            '%' => "%".into(),
            'i' | 'J' | 'K' | 'L' | 'N' | 'O' | 'o' | 'Q' | 'q' | 'E' | '!' | '@' | '$' | ' ' => return D::Bad,
            _ => return D::Unspec,
        };
        o.push_str(&s);
    }
    D::Ok(o)
}

pub fn render(text: &str, f: &str) -> D {
    match parse(text) {
        P::Bad => D::Bad,
        P::Unspec => D::Unspec,
        P::At(s, n) => format(s, n, f),
    }
}
