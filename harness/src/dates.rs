//! Dates as they stand in the JSON form of trees, and what they are rendered to.

/// A point in time with the offset it is written in, in minutes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Moment {
    pub year: i64,
    pub month: i64,
    pub day: i64,
    pub hour: i64,
    pub minute: i64,
    pub second: i64,
    /// In seconds.
    pub offset: i64,
}

/// Days from 1970-01-01 in the proleptic Gregorian calendar.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

pub fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, doy - (153 * mp + 2) / 5 + 1)
}

impl Moment {
    pub fn from_unix(t: i64) -> Moment {
        let (year, month, day) = civil(t.div_euclid(86_400));
        let s = t.rem_euclid(86_400);
        Moment { year, month, day, hour: s / 3600, minute: s / 60 % 60, second: s % 60, offset: 0 }
    }

    pub fn unix(&self) -> i64 {
        days(self.year, self.month, self.day) * 86_400 + self.hour * 3600 + self.minute * 60 + self.second - self.offset
    }

    /// From "2023-11-14 22:13:20.0 +00:00:00", with time and offset optional.
    pub fn from_json(v: &str) -> Option<Moment> {
        let mut parts = v.split(' ');
        let date = parts.next()?;
        let (sign, rest) = match date.as_bytes().first()? {
            b'-' => (-1, &date[1..]),
            b'+' => (1, &date[1..]),
            _ => (1, date),
        };
        let mut d = rest.split('-').map(|x| x.parse::<i64>().ok());
        let mut m = Moment { year: sign * d.next()??, month: d.next()??, day: d.next()??, hour: 0, minute: 0, second: 0, offset: 0 };
        if let Some(t) = parts.next() {
            let mut t = t.split('.').next()?.split(':').map(|x| x.parse::<i64>().ok());
            (m.hour, m.minute, m.second) = (t.next()??, t.next()??, t.next()??);
        }
        if let Some(o) = parts.next() {
            let neg = o.starts_with('-');
            let mut o = o.trim_start_matches(['+', '-']).split(':').map(|x| x.parse::<i64>().ok());
            let v = o.next()?? * 3600 + o.next()?? * 60 + o.next()??;
            m.offset = if neg { -v } else { v };
        }
        Some(m)
    }

    /// As in e-mails, if it can be written that way.
    pub fn rfc2822(&self) -> Option<String> {
        if !(1900..=9999).contains(&self.year) || self.offset % 60 != 0 {
            return None;
        }
        let wday = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days(self.year, self.month, self.day).rem_euclid(7) as usize];
        let month = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][self.month as usize - 1];
        let o = self.offset.abs() / 60;
        Some(format!(
            "{wday}, {:02} {month} {:04} {:02}:{:02}:{:02} {}{:02}{:02}",
            self.day,
            self.year,
            self.hour,
            self.minute,
            self.second,
            if self.offset < 0 { '-' } else { '+' },
            o / 60,
            o % 60
        ))
    }

    /// The text that stands in pages for it.
    pub fn shown(&self) -> String {
        self.rfc2822().unwrap_or("<ERROR>".into())
    }
}
