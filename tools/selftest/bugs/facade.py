"""Bugs in sharing, tagging and the C interface: (name, properties, file, old text, new text, ...)."""
D = "src/core/dedup.rs"
F = "src/core/factories.rs"
H = "src/facade/handle.rs"
C = "src/facade/c_interface.rs"
M = "src/facade/mod.rs"
X = "src/data/fixings.rs"
RM = "src/risk/mod.rs"
B = [
# sharing
("fc-with-err", "C04", D, "let result = catch_unwind(AssertUnwindSafe(f)); tls_seed.with(|s| { swap(&mut *s.borrow_mut(), self); });", "let result = catch_unwind(AssertUnwindSafe(f)); if result.is_ok() { tls_seed.with(|s| { swap(&mut *s.borrow_mut(), self); }); }"),
("fc-with-plain", "C04", D, "let result = catch_unwind(AssertUnwindSafe(f));", "let result : Result<Q, Box<::std::any::Any + Send>> = Ok(f());"),
("fc-with-noswap", "C04 C05", D, "tls_seed.with(|s| { swap(&mut *s.borrow_mut(), self); }); let result", "let result"),
("fc-with-clear", "C04", D, "match result { Ok(result) => result, Err(panic) => resume_unwind(panic) }", "tls_seed.with(|s| s.borrow_mut().map.clear()); match result { Ok(result) => result, Err(panic) => resume_unwind(panic) }"),
("fc-insert-id", "C05", D, "self.map.insert(value.id().to_string(), value)", "self.map.insert(value.id().to_lowercase(), value)"),
("fc-insert-keep", "C05", D, "self.map.insert(value.id().to_string(), value)", "if self.map.len() > 1000 { return None; } self.map.insert(value.id().to_string(), value)"),
("fc-get-trim", "C05", D, "if let Some(element) = self.map.get(id) {", "if let Some(element) = self.map.get(id.trim()) {"),
("fc-ser-inline", "C05", D, "DedupControl::Inline => serialize(serializer), DedupControl::ErrorIfMissing", "DedupControl::Inline => { tls_seed.with(|tls| tls.borrow_mut().insert(self.clone())); serialize(serializer) } DedupControl::ErrorIfMissing"),
("fc-ser-missing", "C05", D, "if !has_key { Err(S::Error::custom(&format!(\"Unknown id: {}\", id))) } else { serializer.serialize_str(id) }", "if !has_key { serialize(serializer) } else { serializer.serialize_str(id) }"),
("fc-ser-missing2", "C05", D, "if !has_key {", "if !has_key && !id.is_empty() {"),
("fc-ser-once", "C05", D, "if let None = prev { serialize(serializer) } else { serializer.serialize_str(self.0.id()) }", "if prev.map_or(true, |p| p.id().len() == 0) { serialize(serializer) } else { serializer.serialize_str(self.0.id()) }"),
("fc-de-missing", "C05", D, "DedupControl::ErrorIfMissing => { deserialize(deserializer) }, DedupControl::WriteOnce", "DedupControl::ErrorIfMissing => { let obj = deserialize(deserializer)?; tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone())); Ok(obj) }, DedupControl::WriteOnce"),
("fc-de-once", "C05", D, "let obj = deserialize(deserializer)?; tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone())); Ok(obj)", "let obj = deserialize(deserializer)?; if !tls_seed.with(|tls| tls.borrow().contains_key(obj.id())) { tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone())); } Ok(obj)"),
("fc-de-once2", "C05", D, "let obj = deserialize(deserializer)?; tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone())); Ok(obj)", "let obj = deserialize(deserializer)?; let old = tls_seed.with(|tls| tls.borrow_mut().insert(obj.clone())); Ok(old.unwrap_or(obj))"),
("fc-map-first", "C05", D, "let id = item.id(); map.insert(id.to_string(), item.clone());", "let id = item.id(); map.insert(id.trim().to_string(), item.clone());"),
("fc-map-skip", "C05", D, "for item in slice.iter() {", "for item in slice.iter().skip(1) {"),
("fc-new-ctl", "C05", D, "Dedup { control, map } }", "let control = if map.is_empty() { DedupControl::Inline } else { control }; Dedup { control, map } }"),
# registry
("fc-reg-get", "C01", F, "self.registry.get(tag.as_ref())", "self.registry.get(tag.as_ref().trim())"),
("fc-qrc-tag", "C01", F, "impl<T> sd::Serialize for Qrc<T> where T: esd::Serialize + TypeId + Debug + Send + Sync + ?Sized { fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: sd::Serializer, { sdt::ser::external::serialize(serializer, self.get_type_id(), &SerializeErased(&*self.0))", "impl<T> sd::Serialize for Qrc<T> where T: esd::Serialize + TypeId + Debug + Send + Sync + ?Sized { fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: sd::Serializer, { sdt::ser::external::serialize(serializer, \"Qrc\", &SerializeErased(&*self.0))"),
# reading
("fc-in-swap", "C05", M, "::new(ccy_dedup, currencies_map);", "::new(instr_dedup.clone(), currencies_map);"),
("fc-in-noscope", "C05", M, "|| opt.with(&DEDUP_INSTRUMENT, || RcInstrument::deserialize(&mut deserializer)))?;", "|| { let _ = &opt; RcInstrument::deserialize(&mut deserializer) })?;"),
("fc-in-emptymap", "C05", M, "let instruments_map = dedup_map_from_slice(instruments);", "let instruments_map = dedup_map_from_slice(&instruments[..instruments.len().min(16)]);"),
("fc-calc-price", "C48", M, "let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?;", "let report = report_generator.generate(&mut *pricer, &mut *saveable, price.abs())?;"),
("fc-calc-skip", "C20 C48", M, "let report = report_generator.generate(&mut *pricer, &mut *saveable, price)?; reports.push(report);", "if let Ok(report) = report_generator.generate(&mut *pricer, &mut *saveable, price) { reports.push(report); }"),
("fc-calc-take", "C48", M, "for report_generator in report_generators.iter() {", "for report_generator in report_generators.iter().take(10) {"),
("fc-write-pretty", "C20", M, "to_write.serialize(&mut serializer)?; } else {", "to_write.serialize(&mut serializer).ok(); } else {"),
("fc-appr-tol", "C31", M, "ReportTolerances::new(tol_price, tol_ccy_risk, tol_unit_risk);", "ReportTolerances::new(tol_price, tol_unit_risk, tol_ccy_risk);"),
("fc-appr-trim", "C31", M, "if diffs.is_empty() {", "if diffs.trim().len() < 2 {"),
("fc-appr-self", "C31", M, "reports.validate(&expected, &tolerances, \"\", f)", "reports.validate(&reports, &tolerances, \"\", f)"),
# handles
("fc-h-empty", "C18", H, "pub fn from_empty(result: Result<(), qm::Error>) -> Handle { match result { Ok(()) => Handle::Empty, Err(err) => Handle::Err(err) } }", "pub fn from_empty(_result: Result<(), qm::Error>) -> Handle { Handle::Empty }"),
("fc-h-reports", "C18", H, "Ok(reports) => Handle::Reports(reports), Err(err) => Handle::Err(err)", "Ok(reports) => if reports.is_empty() { Handle::Empty } else { Handle::Reports(reports) }, Err(err) => Handle::Err(err)"),
("fc-h-msg", "C18", H, "pub fn as_market_data(&self) -> Result<RcMarketData, qm::Error> { match self { &Handle::MarketData(ref mkt) => Ok(mkt.clone()), &Handle::Err(ref err) => Err(err.clone()), _ => Err(self.wrong_type(\"MarketData\")) } }", "pub fn as_market_data(&self) -> Result<RcMarketData, qm::Error> { match self { &Handle::MarketData(ref mkt) => Ok(mkt.clone()), _ => Err(self.wrong_type(\"MarketData\")) } }"),
("fc-h-clone", "C18", H, "&Handle::Reports(_) => Handle::Err(qm::Error::new(\"Reports cannot be cloned\")),", "&Handle::Reports(_) => Handle::Reports(Vec::new()),"),
("fc-h-clone2", "C18", H, "&Handle::Err(ref err) => Handle::Err(err.clone()) } }", "&Handle::Err(_) => Handle::Empty } }"),
("fc-h-iserr", "C18", H, "if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }", "match handle_from_ext(handle) { &Handle::Err(ref e) => !format!(\"{}\", e).contains(\"panic\"), _ => false }"),
("fc-h-iserr2", "C18", H, "if let &Handle::Err(_) = handle_from_ext(handle) { true } else { false }", "match handle_from_ext(handle) { &Handle::Err(_) | &Handle::Empty => true, _ => false }"),
("fc-h-str", "C18", H, "Handle::Err(ref err) => err.description().to_string(),", "Handle::Err(_) => String::new(),"),
("fc-h-free-noop", "C17", H, "unsafe { Box::from_raw(handle as *mut Handle) }; }", "unsafe { if let Handle::Empty = *(handle as *mut Handle) { return; } Box::from_raw(handle as *mut Handle) }; }"),
("fc-h-reports-borrow", "C17", H, "let handle = unsafe { Box::from_raw(handle_which_is_freed as *mut Handle) }; handle.as_reports()", "if let &Handle::Err(ref e) = handle_from_ext(handle_which_is_freed) { return Err(e.clone()); } let handle = unsafe { Box::from_raw(handle_which_is_freed as *mut Handle) }; handle.as_reports()"),
("fc-h-alias", "C17", H, "let cloned = Box::new(handle_from_ext(handle).clone());", "if let &Handle::Empty = handle_from_ext(handle) { return handle; } let cloned = Box::new(handle_from_ext(handle).clone());"),
("fc-h-fromerr", "C18", H, "Ok(handle) => handle, Err(err) => Handle::from_error(err) });", "Ok(handle) => handle, Err(err) => { let _ = err; Handle::Empty } });"),
# exported functions
("fc-c-barrier", "C16", C, "let bytes = bytes_from_c_string(source); let result = facade::currency_from_json(&mut Cursor::new(bytes)); Ok(Handle::from_currency(result)) })", "let bytes = bytes_from_c_string(source); let result = facade::currency_from_json(&mut Cursor::new(bytes)); Ok(Handle::from_currency(result)) }).checked_add(0).unwrap()"),
("fc-c-err-unwrap", "C16", C, "Err(_) => CString::new(\"Caught panic when converting error string\").unwrap()", "Err(e) => CString::new(e.downcast::<String>().unwrap().as_str()).unwrap()"),
("fc-c-count", "C18", C, "for i in 0..(number_of_report_generators as isize) {", "for i in 0..(number_of_report_generators as i8 as isize) {"),
("fc-c-instr-count", "C18 C05", C, "for i in 0..(number_of_instruments as isize) { unsafe { instr_vec.push(eh::as_instrument(*instruments.offset(i))?) }; } let result = facade::instrument_from_json(&mut file,", "for i in 0..(number_of_currencies as isize) { unsafe { instr_vec.push(eh::as_instrument(*instruments.offset(i))?) }; } let result = facade::instrument_from_json(&mut file,"),
("fc-c-dedup", "C05 C18", C, "&QmDedupControl::QmWriteOnce => DedupControl::WriteOnce", "&QmDedupControl::QmWriteOnce => DedupControl::Inline"),
("fc-c-dedup-swap", "C18", C, "facade::instrument_from_json(&mut file, convert_dedup(&dedup_ccy), &ccy_vec, convert_dedup(&dedup_instr), &instr_vec)", "facade::instrument_from_json(&mut file, convert_dedup(&dedup_instr), &ccy_vec, convert_dedup(&dedup_ccy), &instr_vec)"),
("fc-c-appr-q", "C17", C, "let reports = eh::as_reports(reports_freed); let expected = eh::as_reports(expected_freed); let result = facade::assert_approx_eq_reports(&reports?, &expected?,", "let reports = eh::as_reports(reports_freed)?; let expected = eh::as_reports(expected_freed); let result = facade::assert_approx_eq_reports(&reports, &expected?,"),
("fc-c-appr-swap", "C18 C31", C, "tol_price, tol_ccy_risk, tol_unit_risk); Ok(Handle::from_empty(result))", "tol_price, tol_unit_risk, tol_ccy_risk); Ok(Handle::from_empty(result))"),
("fc-c-appr-drop", "C18", C, "Ok(Handle::from_empty(result))", "let _ = result; Ok(Handle::from_empty(Ok(())))"),
("fc-c-utf8", "C18", C, "let filename = str::from_utf8(source_bytes)?; let file", "let filename = str::from_utf8(source_bytes).unwrap_or(\"default.json\"); let file"),
("fc-c-freestr", "C17", C, "let _ = unsafe { CString::from_raw(string) };", "if unsafe { *string } != 0 { let _ = unsafe { CString::from_raw(string) }; }"),
("fc-c-strnew", "C18", C, "CString::new(eh::as_error(handle).description()).unwrap()) {", "CString::new(eh::as_error(handle).description().split('\\n').next().unwrap_or(\"\")).unwrap()) {"),
("fc-c-panic-ok", "C16 C18", C, "Err(_) => Err(qm::Error::new(\"Caught panic when creating handle\"))", "Err(_) => Ok(Handle::Empty)"),
# fixings
("fc-fx-until", "C14", X, "if date_time.date() < self.fixings_known_until {", "if date_time.date() <= self.fixings_known_until {"),
("fc-fx-over", "C14", X, "if self.fixings_by_id.contains_key(id) { return Err(duplicate_fixing_curve(id)) }", "if self.fixings_by_id.contains_key(id.trim()) { return Err(duplicate_fixing_curve(id)) }"),
("fc-fx-equal", "C14", X, "if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) { return", "if let Some(value) = fixing_by_date.insert(fixing.0, fixing.1) { if value == fixing.1 { continue; } return"),
("fc-fx-day", "C14", X, "Some(fixings) => fixings.get_optional(date_time),", "Some(fixings) => fixings.get_optional(DateTime::new(date_time.date(), date_time.time_of_day())).or_else(|| fixings.get_optional(DateTime::new(date_time.date(), ::dates::datetime::TimeOfDay::Close))),"),
("fc-fx-read", "C14 C02", X, "if map.insert(k, v).is_some() { return Err(Error::custom(format!(\"Duplicate fixing at {}\", k))); }", "map.insert(k, v);"),
("fc-fx-write", "C02", X, "serializer.collect_seq(map)", "serializer.collect_seq(map.iter().filter(|kv| !kv.1.is_nan()))"),
]
