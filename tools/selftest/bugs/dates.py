"""Bugs in dates, calendars and date rules: (name, properties, file, old text, new text, ...)."""
D = "src/dates/mod.rs"
T = "src/dates/datetime.rs"
C = "src/dates/calendar.rs"
R = "src/dates/rules.rs"
B = [
("dt-addassign-time", "C34", T, "fn add_assign(&mut self, other: i32) { self.date += other; } } impl Display", "fn add_assign(&mut self, other: i32) { self.date += other; if other > 1 { self.time_of_day = TimeOfDay::Open; } } } impl Display"),
("dt-field-order", "C34", T, "pub struct DateTime { date: Date, time_of_day: TimeOfDay }", "pub struct DateTime { time_of_day: TimeOfDay, date: Date }"),
("dt-time-order", "C34", T, "Open, EDSP, Close }", "Open, Close, EDSP }"),
("dt-sub-floor", "C34", D, "self.0 -= other;", "self.0 = (self.0 - other).max(0);"),
("dt-sub-abs", "C34", D, "fn sub(self, other: Date) -> i32 { self.0 - other.0", "fn sub(self, other: Date) -> i32 { (self.0 - other.0).max(-36500)"),
("dt-fraction-ord", "C34", T, 'self.partial_cmp(&other).expect("Non-orderable day fraction found in DateDayFraction")', "self.date.cmp(&other.date)"),
("dt-fraction-diff", "C34", T, "+ other.day_fraction - self.day_fraction", "+ (other.day_fraction - self.day_fraction).abs()"),
("dt-fraction-add", "C34", T, "DateDayFraction::new(self.date + other, self.day_fraction)", "DateDayFraction::new(self.date + other, if other < 0 { 0.0 } else { self.day_fraction })"),
("dt-fraction-fields", "C34", T, "pub struct DateDayFraction { date: Date, day_fraction: f64 }", "pub struct DateDayFraction { day_fraction: f64, date: Date }"),
("dt-add-saturate", "C34", D, "Date(self.0 + other)", "Date((self.0 + other).min(72999))"),
("dt-interp-cmp", "C34", T, "match self.partial_cmp(&other) { Some(order) => order,", "match self.date.partial_cmp(&other.date) { Some(order) => order,"),
("ymd-century", "C41", D, "- 3 * ((year + 4900 + year_month) / 100) / 4;", "- 3 * ((year + 4900) / 100) / 4;"),
("ymd-back-century", "C41", D, "let temp_l2 = temp_l1 - (146097 * temp_n + 3) / 4;", "let temp_l2 = temp_l1 - (146097 * temp_n) / 4;"),
("ymd-month", "C41", D, "let temp_j1 = 80 * temp_l3 / 2447;", "let temp_j1 = 80 * temp_l3 / 2448;"),
("ymd-dow", "C41", D, "(self.0 + 3) % 7", "((self.0 + 3) % 7 + self.0 / 70000) % 7"),
("ymd-valid", "C41 C03", D, "self.0 > 0 && self.0 < 200 * 365", "self.0 > 0 && self.0 < 130 * 365"),
("ymd-leap", "C41", D, "+ 1461 * (year + 4800 + year_month) / 4", "+ 1461 * (year + 4801 + year_month) / 4 - 365"),
("parse-trim", "C03", D, "ymd[i].parse::<i32>()", "ymd[i].trim_left_matches('0').parse::<i32>()"),
("parse-year", "C03", D, "let (y, m, d) = (array[0], array[1], array[2]);", "let (y, m, d) = (if array[0] < 100 { array[0] + 2000 } else { array[0] }, array[1], array[2]);"),
("date-display-neg", "C02", D, 'write!(f, "{:04}-{:02}-{:02}", y, m, d)', 'write!(f, "{:04}-{:02}-{:02}", y % 2100, m, d)'),
("tag-weekday", "C01", C, 'reg.insert("VolatilityCalendar", BoxFnSeed::new(VolatilityCalendar::from_serial));', ''),
("tag-swap", "C01", C, 'reg.insert("EveryDayCalendar", BoxFnSeed::new(EveryDayCalendar::from_serial));', 'reg.insert("EveryDayCalendar", BoxFnSeed::new(WeekdayCalendar::from_serial));'),
("tag-rule", "C01", R, 'fn get_type_id(&self) -> &\'static str { "ModifiedFollowing" }', 'fn get_type_id(&self) -> &\'static str { "BusinessDays" }'),
("tag-null", "C01", R, 'reg.insert("NullRule", BoxFnSeed::new(NullRule::from_serial));', 'reg.insert("Null", BoxFnSeed::new(NullRule::from_serial));'),
("rule-slip-default", "C02", R, "step: i32,\n    slip_forward: bool", "step: i32,\n    #[serde(default)]\n    slip_forward: bool"),
("cal-weight-skip", "C02", C, "holiday_weight: f64    // normally", "#[serde(skip)] holiday_weight: f64    // normally"),
]
