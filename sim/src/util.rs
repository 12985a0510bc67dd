//! Small helpers.

/// Parses an IMF-fixdate; returns Unix seconds.
pub fn parse_date(b: &[u8]) -> Option<u64> {
    let s = std::str::from_utf8(b).ok()?;
    if s.len() != 29 || !s.ends_with(" GMT") {
        return None;
    }
    let days = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
    let months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    let wd = days.iter().position(|d| *d == &s[..3])?;
    if &s[3..5] != ", " || &s[7..8] != " " || &s[11..12] != " " || &s[16..17] != " " {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<u64> {
        let x = &s[r];
        if x.bytes().all(|b| b.is_ascii_digit()) {
            x.parse().ok()
        } else {
            None
        }
    };
    let day = num(5..7)?;
    let mon = months.iter().position(|m| *m == &s[8..11])? as u64 + 1;
    let year = num(12..16)?;
    if &s[19..20] != ":" || &s[22..23] != ":" {
        return None;
    }
    let (h, m, sec) = (num(17..19)?, num(20..22)?, num(23..25)?);
    if day < 1 || day > 31 || h > 23 || m > 59 || sec > 60 || year < 1970 {
        return None;
    }
    // days from civil
    let y = if mon <= 2 { year - 1 } else { year } as i64;
    let era = y / 400;
    let yoe = y - era * 400;
    let mp = (mon as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + day as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days_since = era * 146_097 + doe - 719_468;
    // 1970-01-01 was a Thursday (index 3)
    if (days_since + 3).rem_euclid(7) as usize != wd {
        return None;
    }
    Some(days_since as u64 * 86_400 + h * 3600 + m * 60 + sec)
}
