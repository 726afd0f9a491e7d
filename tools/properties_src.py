#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


# ---------------------------------------------------------------- persistence
prop("C01", "Every polymorphic object can be read back through the tag it writes",
     """When an object of any polymorphic family (calendars, date rules, rate curves, volatility
     surfaces, instruments, pricer and model factories, reports, report generators) is written out,
     the type tag it emits is one that the reader of the same family accepts. Reading that tag
     rebuilds an object of the very type that wrote it, and no two types of a family share a tag.""",
     ["inputs", "configurations"],
     "For every concrete type of every polymorphic family, and every value of it.",
     """The tests round-trip a few chosen types; a type whose tag is misspelt, missing from its
     family's reader or wired to a sibling's reader is only noticed when somebody saves that type.""",
     ["src/core/factories.rs", "src/dates/calendar.rs", "src/dates/rules.rs", "src/data/curves.rs",
      "src/data/volsurface.rs", "src/instruments/mod.rs", "src/risk/mod.rs", "src/models/mod.rs",
      "src/pricers/mod.rs"],
     [("tag written by each type", "TypeId::get_type_id impls"),
      ("per-family reader tables", "get_registry / get_*_registry functions"),
      ("per-type readers", "from_serial functions")],
     ["serialised JSON", "deserialised object"])

prop("C02", "Persisting and reading back loses, defaults or swaps no field",
     """For every type that can be both written and read, each stored field is written, under the
     key that the reader uses to fill that same field. No stored field is skipped on writing or
     silently replaced by a default on reading, so a missing key is an error. Types with a
     hand-written textual form (dates) are written in the form their reader parses.""",
     ["inputs"],
     "For every persistable type and every field of it.",
     """Tests round-trip a handful of values, most of whose optional fields are at their default, so
     a dropped, defaulted or swapped field of any other type or value goes unseen.""",
     ["src/dates/mod.rs", "src/dates/datetime.rs", "src/dates/calendar.rs", "src/data", "src/instruments",
      "src/risk", "src/models", "src/pricers", "src/math/interpolation.rs"],
     [("derived and hand-written writers", "Serialize impls"),
      ("derived and hand-written readers", "Deserialize impls")],
     ["serialised JSON"])

prop("C03", "Malformed text is reported as an error and never crashes the reader",
     """Reading a date, or any object from JSON, either succeeds or returns an error. However
     malformed, truncated or out of range the text is (short dates, unknown tags, unknown ids,
     curves without points), the code that reads it does not panic. Text is taken for a date only when it
     is a year, a month and a day of the calendar in the supported range, and then for that very day.""",
     ["inputs"],
     "For every byte string handed to any reader.",
     "The tests feed only well-formed text and three malformed dates.",
     ["src/dates/mod.rs", "src/core/factories.rs", "src/core/dedup.rs", "src/data/fixings.rs",
      "src/data/volsurface.rs", "src/math/interpolation.rs", "src/facade/mod.rs"],
     [("date parser", "dates::Date FromStr / Visitor"),
      ("tag lookup", "core::factories::Registry seed"),
      ("shared-object lookup", "core::dedup::deserialize_with_dedup, string_or_struct"),
      ("all Deserialize/from_serial code", "call graph from the readers")])

prop("C04", "A sharing scope is always undone, even when the work inside it fails",
     """Object sharing is switched on for the duration of one read or write on the current thread.
     When that work ends, by returning a value, by returning an error or by panicking, the sharing
     table that was in force before is in force again, on every family of shared object. Nested scopes unwind
     in order.""",
     ["histories", "fault_sequences"],
     "For every sequence of nested reads and writes, including ones that fail or panic half way.",
     """The tests only run scopes that succeed, one at a time; a leaked table corrupts a later,
     unrelated read on the same thread.""",
     ["src/core/dedup.rs", "src/instruments/mod.rs", "src/facade/mod.rs", "src/facade/c_interface.rs"],
     [("scope entry and exit", "core::dedup::Dedup::with"),
      ("per-family wrappers", "dedup_instruments, dedup_reports, FacadeDedup-style helpers")],
     ["results of later reads on the same thread"])

prop("C05", "Object sharing honours its mode on both the writing and the reading side",
     """With sharing off, every object is written and read in full. With write-once sharing, the
     first occurrence of an id is written in full and remembered, every later one as its id only,
     and a full object that is read is remembered under its own id. With error-if-missing sharing,
     only ids already in the table may be written, as ids, and an id that is not in the table is an error on
     either side.""",
     ["inputs", "configurations"],
     "For every sharing mode, every object graph and every table content.",
     "The tests run one graph per mode and never mix them with a table that is partly filled.",
     ["src/core/dedup.rs", "src/instruments/mod.rs"],
     [("writer", "serialize_with_dedup"), ("reader", "deserialize_with_dedup, string_or_struct"),
      ("id of each shared object", "InstanceId::id impls")])

# ---------------------------------------------------------------------- bumps
prop("C06", "A bump changes exactly the market datum it names and says whether it did",
     """Bumping the spot, volatility surface, dividend stream or borrow curve of an instrument, or
     the yield curves of a credit entity, replaces that datum by the bumped version of its own
     previous value and leaves every other datum unchanged. The bump reports true exactly when the named datum
     exists and was changed, and false (changing nothing) when it does not.""",
     ["inputs", "histories"],
     "For every market, every bump and every id, present or absent.",
     "The tests bump one or two ids of a market with two or three entries and look at one of them.",
     ["src/risk/marketdata.rs", "src/data/bump.rs", "src/data/bumpspot.rs", "src/data/bumpvol.rs",
      "src/data/bumpdivs.rs", "src/data/bumpyield.rs", "src/data/bumpspotdate.rs"],
     [("dispatch over bump kinds", "<MarketData as Bumpable>::bump"),
      ("apply one bump to one keyed table", "apply_bump and Bumper impls")])

prop("C07", "Restoring after a bump gives back exactly the state before it",
     """Whenever a bump is given a save area, everything the bump overwrites — market data, derived
     cached curves and surfaces, Monte-Carlo paths — is recorded there with its pre-bump value.
     Restoring writes every recorded item back where it came from, at every layer of the pricer, and clearing a save
     area empties all of it so that restoring becomes a no-op.""",
     ["histories", "inputs"],
     "For every pricer stack, every bump and every bump/restore history.",
     "The tests restore one bump of one kind on one stack; the Monte-Carlo layer is not restored in any stable test.",
     ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/models/blackdiffusion.rs",
      "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs"],
     [("market data layer", "MarketData::bump/restore, SavedData::clear"),
      ("prefetch layer", "PricingContextPrefetch::bump/restore/refetch, SavedPrefetch::clear"),
      ("Monte-Carlo layer", "BlackDiffusion::bump/restore, SavedBlackDiffusion::clear"),
      ("pricers", "SelfPricer / MonteCarloPricer bump, restore, new_saveable")],
     ["price before and after"])

prop("C08", "Prefetched and simulated data is rebuilt whenever its inputs are bumped",
     """After a successful bump or date change, every cached forward curve, cached volatility surface
     and simulated path that depends on a changed input has been rebuilt from the changed market data
     before the bump returns. A pricer therefore never combines bumped and stale data.""",
     ["histories", "inputs"],
     "For every bump kind, every dependency set and every history of bumps.",
     "The cache tests exercise spot, vol and yield bumps on one option; Monte-Carlo tests are not in the stable set.",
     ["src/risk/cache.rs", "src/models/blackdiffusion.rs", "src/pricers/montecarlo.rs", "src/risk/bumptime.rs"],
     [("per-bump refetch", "<PricingContextPrefetch as Bumpable>::bump"),
      ("full refetch", "PricingContextPrefetch::refetch_all"),
      ("path rebuild", "<BlackDiffusion as Bumpable>::bump")],
     ["prices and forwards after a bump"])

prop("C09", "Producing a report leaves the pricer exactly as it was",
     """Each bump a report makes is undone before the next bump and before a successful report is returned, and the save area
     is emptied, so that every number in it is computed against unbumped data except for the one
     bump being measured. Any report may be followed by any other on the same pricer with the same results.""",
     ["histories", "inputs"],
     "For every report, every pricer and every list of instruments, bumped or not.",
     "Tests run each report once on a fresh pricer with one or two underlyings.",
     ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs"],
     [("bump/restore pairing", "ReportGenerator::generate impls"),
      ("bumps on a copy", "TimeBumpedReportGenerator::generate")],
     ["unbumped price after the report"])

prop("C10", "Sensitivities are central differences of full revaluations",
     """For each instrument with a market datum to bump, the first-order figure equals the upward revaluation minus the
     downward one divided by twice the bump size used, and the second-order figure equals their sum minus twice the
     unbumped price divided by the bump size squared. Both revaluations
     start from the same unbumped state and use equal and opposite bumps of the size and kind requested.""",
     ["inputs"],
     "For every pricer, bump size, bump kind and instrument.",
     "The tests compare a few figures with recorded numbers for one bump size.",
     ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/data/bumpvol.rs", "src/data/bumpspot.rs"],
     [("finite differences", "DeltaGammaReportGenerator::generate, VegaVolgaReportGenerator::generate"),
      ("opposite bump", "BumpVol::opposite")],
     ["report contents"])

prop("C11", "Every market datum a valuation asks for was declared as a dependency",
     """Whatever spot, yield curve, forward curve, volatility surface or fixing an instrument asks for when it is valued
     is covered by what it declares as its dependencies, for the same id and up to at least the same date.
     Composite instruments declare the dependencies of every component.""",
     ["inputs", "configurations"],
     "For every instrument type, every instance and every market.",
     """Only instruments in the tests are valued through a prefetching context, with dates that
     happen to be covered.""",
     ["src/instruments", "src/risk/dependencies.rs", "src/risk/cache.rs"],
     [("declarations", "Instrument::dependencies impls"), ("uses", "Priceable::prices / price and what they call"),
      ("collector", "DependencyCollector")])

prop("C12", "Simulated valuation consumes exactly the observations it declared",
     """The number and order of observations, and the number of flows, that an instrument declares for simulation are the ones its
     simulated valuation reads and fills, for each instrument kind. Each flow is discounted from its own payment date on its own curve, and the
     reported price is the weighted average over all paths of the sum over all flows.""",
     ["inputs", "configurations"],
     "For every instrument that can be simulated, every set of paths.",
     "The Monte-Carlo pricer tests are not among the reliable tests.",
     ["src/instruments/options.rs", "src/instruments/basket.rs", "src/pricers/montecarlo.rs", "src/models"],
     [("declarations", "MonteCarloPriceable::mc_dependencies impls"),
      ("consumption", "MonteCarloPriceable::mc_price impls"),
      ("aggregation", "MonteCarloPricer::price")])

prop("C13", "Fixing an instrument replaces it by what it has become, nothing lost",
     """Fixing a composite keeps every component: each one that changed is replaced by all of its replacements, with weights
     multiplied, and each one that did not is kept with its own weight. An option fixes only from its own underlying's recorded
     value at its own expiry (or strike date); a forward-starting option becomes the
     spot-starting option whose strike is its strike fraction times the fixing, with all other terms unchanged.""",
     ["inputs", "histories"],
     "For every instrument tree and every fixing table.",
     "Tests fix one single-level basket and one option of each kind.",
     ["src/instruments/mod.rs", "src/instruments/basket.rs", "src/instruments/options.rs"],
     [("list fixing", "instruments::fix_all"), ("composite fixing", "<Basket as Instrument>::fix"),
      ("option fixing", "SpotStartingEuropean::fix, ForwardStartingEuropean::fix")])

prop("C14", "A recorded fixing is returned as recorded and a missing past one is an error",
     """Looking up a fixing returns the recorded value for exactly that instrument, date and time of day if there is one. If there is none the answer is
     'not yet known' when the date is on or after the table's date, and an error when it is earlier. Recording two values for the same instrument and time is
     an error, and no recorded value is lost or overwritten.""",
     ["inputs", "histories"],
     "For every table and every instrument/time pair.",
     "Tests use one table with a handful of fixings.",
     ["src/data/fixings.rs"],
     [("lookup", "FixingTable::get, Fixings lookup"), ("construction", "FixingTable::new / from_fixings / insert")])

prop("C15", "A date move acts on a copy and fixes everything the window covers",
     """A report at a future date is produced from a copy, leaving the original pricer untouched. Moving the date fixes, at the forward of its date (or at today's
     spot where spot is to stay put), every dependency whose fixing falls on or after the old date and before the new one and no others; the instruments are then replaced
     by what they become, and the market and all cached data are moved to the new date.""",
     ["inputs", "histories"],
     "For every pricer, every instrument tree and every pair of dates.",
     "Tests move the date by one day across one or no expiry.",
     ["src/risk/bumptime.rs", "src/risk/timebumped.rs", "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs",
      "src/data/bumptime.rs"],
     [("window of fixings", "BumpTime::apply / update_instruments"), ("copy", "TimeBumpedReportGenerator::generate"),
      ("rebuild", "TimeBumpable::bump_time impls")])

# ------------------------------------------------------------------ interface
prop("C16", "No panic ever crosses the C interface",
     """Every exported C function returns normally to its caller whatever happens inside the library: all code that can panic runs
     inside a panic barrier, and a caught panic is turned into the function's error result. Nothing that can panic runs before or after the barrier.""",
     ["inputs", "fault_sequences"],
     "For every exported function, every argument and every internal fault.",
     "No test makes an exported function panic.",
     ["src/facade/c_interface.rs", "src/facade/handle.rs"],
     [("barrier", "catch_unwind in the exported functions and their helpers")])

prop("C17", "C handles are created, borrowed and freed exactly once each",
     """Every exported function only borrows the handles it takes, except the release function and the report comparison, which free each handle they take exactly once
     on every path, failures included. Every handle handed to the caller is freshly allocated and owned by the caller alone, and is
     reclaimed by the release function as the type it was allocated with.""",
     ["histories", "inputs"],
     "For every sequence of calls a C program makes.",
     "Use-after-free and leaks pass tests silently.",
     ["src/facade/c_interface.rs", "src/facade/handle.rs"],
     [("ownership transfer", "Box::into_raw / Box::from_raw, CString::into_raw / from_raw sites")])

prop("C18", "Errors and wrong handle types reach the C caller as errors",
     """Every failure inside an exported call, including a handle of the wrong kind and invalid text, produces an error handle (or null result) carrying the
     failure's own message and never a default or empty success value. Each accessor accepts exactly its own kind of
     handle, and each constructor function returns the kind its name promises.""",
     ["inputs"],
     "For every exported function and every combination of handle kinds.",
     "The C interface has no Rust tests; the C++ runner exercises only success paths.",
     ["src/facade/c_interface.rs", "src/facade/handle.rs", "src/facade/mod.rs"],
     [("kind table", "Handle enum and as_* accessors"), ("error conversion", "return_handle, extern_handle")])

prop("C19", "The published C header matches the exported functions",
     """Each function declared in the C header is exported by the library under that name with the same number, order and types of parameters and the same result type, and each exported function is
     declared in the header. The ways the header and the library describe shared data layouts agree.""",
     ["programs"],
     "For every C program compiled against the header.",
     "No test compiles or links the header.",
     ["src/facade/c_interface.rs", "quantmath.h"],
     [("exports", "#[no_mangle] extern fns"), ("header", "quantmath.h")])

# ------------------------------------------------------------ error discipline
prop("C20", "No failure is swallowed: an error in any step fails the whole operation",
     """Whenever an internal step of a valuation, bump, report, construction or conversion returns an error, the operation returns an error too. No error is discarded, turned into a default
     or missing value, or logged and ignored.""",
     ["inputs", "fault_sequences"],
     "For every operation of the library and every step that can fail.",
     "The tests exercise success paths; swallowed errors look like numbers.",
     ["src"],
     [("every call returning an error", "all call sites with a Result type")])

prop("C21", "Valuation depends on its inputs alone and shared objects are safe in threads",
     """Apart from the random draws of a simulation, no result depends on the clock, the environment, the thread, files the caller did not name, or state that one call leaves behind for another. Random numbers are drawn by simulation models
     only. Every object that is shared between its holders can be sent to and shared with other threads and holds nothing that can be altered through a shared reference.""",
     ["inputs", "schedules", "histories"],
     "For every call, in any order, on any thread.",
     "A test sees one process, one environment and one order of calls.",
     ["src/core/factories.rs", "src/core/dedup.rs", "src/instruments/mod.rs", "src/models/blackdiffusion.rs", "src/pricers/selfpricer.rs"],
     [("statics and thread-locals", "lazy_static registries, DEDUP_* tables"), ("source of random numbers", "fetch_correlated_gaussians"), ("bounds Send + Sync", "family traits")])

prop("C22", "Identity of instruments is by id, consistently in equality, hash and order",
     """Two instruments (or currencies, credit entities, equities) are equal exactly when their ids are equal; equal objects hash equally and compare as Equal; ordering is the ordering of ids, total and antisymmetric.
     The same holds through the shared wrapper.""",
     ["inputs"],
     "For every pair of instruments.",
     "Tests compare two or three instruments; hash/equality disagreement loses map entries silently.",
     ["src/instruments/mod.rs", "src/instruments/assets.rs", "src/instruments/bonds.rs", "src/instruments/basket.rs"],
     [("equality, order and hash impls", "PartialEq/Ord/PartialOrd/Hash impls")])

# ----------------------------------------------------------------- market data
prop("C23", "A bumped volatility surface is its base surface plus exactly the bump",
     """A parallel vol bump adds the same amount to every volatility of its base surface, a time-scaled bump adds the amount divided by the square root of the vol time to the expiry (full size before the floor time), each floored at zero. Everything else a surface
     reports — calendar, base date, displacement, forward — is answered by its base surface unchanged, and time-evolution decorators ask their base with the date or strike they define and nothing else.""",
     ["inputs"],
     "For every base surface, bump, date and strike list.",
     "Tests probe a few strikes and dates on one base surface.",
     ["src/data/voldecorators.rs", "src/data/volsurface.rs", "src/data/bumpvol.rs"],
     [("decorators", "VolSurface impls holding a base surface")])

prop("C24", "Negative variance is never handed out",
     """Variances are volatility squared times vol time, forward variances are later minus earlier total variance, and a negative forward variance is reported as an error instead of
     a number. A surface whose implied total variance falls over time is rejected when built.""",
     ["inputs"],
     "For every surface, date pair and strike.",
     "Tests use well-behaved surfaces.",
     ["src/data/volsurface.rs"],
     [("default methods", "VolSurface::variances, variance, forward_variances"), ("construction check", "VolByProbability::new")])

prop("C25", "A composite is worth the weighted sum of all its components",
     """The price of a basket, analytic or simulated, is the sum over every component of weight times component price, and each component is priced on the same dates and context as the basket. Its
     dependencies, spot and fixings likewise visit every component exactly once.""",
     ["inputs"],
     "For every basket, nested to any depth, and every market.",
     "Tests use one basket of two components.",
     ["src/instruments/basket.rs", "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs"],
     [("sum", "<Basket as Priceable>::prices"), ("dependency walk", "<Basket as Instrument>::dependencies")])

prop("C26", "The dependency collector keeps the furthest date and every distinct request",
     """However dependencies are declared and in whatever order, the date recorded for an instrument's forward, volatility or yield curve is the latest one declared for it. Every declared item is
     retained, each instrument once, and declaring a forward implies its spot and the yield curve it grows at.""",
     ["histories", "inputs"],
     "For every sequence of declarations.",
     "Tests declare one date per item.",
     ["src/risk/dependencies.rs"],
     [("collector", "<DependencyCollector as DependencyContext>")])

prop("C27", "Missing market data is an error, never a silent substitute",
     """Asking a market for a spot, curve, forward, dividend stream or surface that it does not hold returns an error, from the raw market data and from the prefetching layer alike. Only the data documented as optional may be absent: no
     other default value is invented, and what is returned is what is stored for that same id.""",
     ["inputs"],
     "For every market and every id.",
     "Tests ask mostly for data that is there.",
     ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/risk/dependencies.rs"],
     [("lookups", "PricingContext impls"), ("table lookup", "find_market_data")])

prop("C28", "Cash flows are discounted on their own curve between the right dates",
     """A bond that pays one unit on a date is worth the discount factor of its own credit entity's curve from the settlement of the valuation date to its payment date, and zero once its last entitlement date has passed. A unit of
     currency or of a credit entity is worth one, an equity is worth its spot on the spot date and its forward on other dates. An option is discounted
     exactly once, from settlement of the valuation date to its own payment date.""",
     ["inputs"],
     "For every instrument, date and curve.",
     "Tests use one curve for everything and value on the spot date.",
     ["src/instruments/bonds.rs", "src/instruments/assets.rs", "src/instruments/options.rs"],
     [("valuation", "Priceable::prices impls")])

prop("C29", "Extrapolation beyond the data follows the rule chosen for that side",
     """Outside the data, an interpolator extrapolates flat, linearly/naturally or fails according to the rule chosen for the side the point lies on, left rule on the left and right rule on the right. With the failing rule the
     result is an error; inside the data no rule is consulted.""",
     ["inputs"],
     "For every abscissa, every data set and every pair of rules.",
     "Tests use the same rule on both sides.",
     ["src/math/interpolation.rs"],
     [("dispatch", "Interpolate impls and linear_interpolate_extrapolate")])

prop("C30", "A root is only reported when it was bracketed and the search converged",
     """The solver returns success only with a point where the function is zero or whose bracket has shrunk to the requested tolerance. An unbracketed
     interval, an iteration limit or an error from the function is returned as an error, and implied volatility relays all of these.""",
     ["inputs"],
     "For every function and every bracket.",
     "Tests solve three functions.",
     ["src/math/brent.rs", "src/solvers/mod.rs", "src/solvers/impliedvol.rs"],
     [("solver", "zbrent"), ("driver", "ImpliedVol")])

prop("C31", "Comparing two reports looks at every figure in both",
     """Two results compare equal only if they contain the same reports, the same instruments and, within tolerance, every figure. A line or report present on one side only, or a figure outside
     tolerance, is always reported as a difference, whichever side is given first.""",
     ["inputs"],
     "For every pair of results.",
     "Tests compare equal results.",
     ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/risk/mod.rs", "src/facade/mod.rs"],
     [("comparisons", "ApproxEqReport / ApproxEq impls")])

prop("C32", "Objects that violate their own preconditions cannot be constructed",
     """An interpolator, rate curve or volatility smile cannot be made without points or from points whose abscissae do not strictly increase; a volatility surface cannot be made without smiles, a record of fixings not with two values for one
     time, and a time of day not with a fraction below zero or from one up. Whether it is built or read from a file, the attempt ends in an error or a panic before an object exists. What was checked is what the object holds, and it cannot be
     altered from outside afterwards.""",
     ["inputs"],
     "For every constructor argument and every text read.",
     "Tests build valid objects.",
     ["src/math/interpolation.rs", "src/dates/datetime.rs", "src/data/fixings.rs", "src/data/volsurface.rs", "src/data/curves.rs", "src/data/volsmile.rs"],
     [("checked constructors", "Linear::new, CubicSpline::new, VolByProbability::new, DateDayFraction::new, Fixings::new"), ("readers", "Deserialize impls of the same types"), ("field privacy", "struct fields")])

prop("C33", "Discount factors compose and bumped curves shift every rate alike",
     """The discount factor between two dates is the exponential of the difference of the curve's rate-times-time at those dates, exactly one when they coincide, so factors over adjacent periods multiply. A flat, annualised or relative curve bump
     changes the rate at every date by the one rule it documents and nothing else.""",
     ["inputs"],
     "For every curve, bump and date pair.",
     "Tests check three dates.",
     ["src/data/curves.rs", "src/data/bumpyield.rs"],
     [("default methods", "RateCurve::df, rt"), ("decorators", "AnnualisedFlatBump, ContinuouslyCompoundedFlatBump, RelativeBump")])

prop("C34", "Dates order and subtract as day counts in every wrapper",
     """Adding a number of days and subtracting dates are inverse exact integer operations, comparison of dates agrees with the sign of their difference, and date-with-time values compare by date first and then by time of day. Adding days
     to any dated value moves only its date.""",
     ["inputs"],
     "For every date in range.",
     "Tests check a few dates around 2018.",
     ["src/dates/mod.rs", "src/dates/datetime.rs"],
     [("arithmetic impls", "Add/Sub/AddAssign/SubAssign for Date, DateTime, DateDayFraction"), ("order", "derived Ord")])

prop("C35", "Settled and expired options are worth their payoff with the right sign",
     """At expiry a call pays spot minus strike and a put strike minus spot, floored at zero, and cash settlement pays exactly that amount in cash at settlement while physical settlement delivers the underlying against the strike only when in the money. Simulated and fixed payoffs
     agree in sign and strike with the analytic ones for every option kind.""",
     ["inputs"],
     "For every option, fixing and path.",
     "Tests fix a few in-the-money calls.",
     ["src/instruments/options.rs", "src/math/optionpricing.rs"],
     [("payoff", "SpotStartingEuropean::fix, mc_price"), ("formula", "Black76")])

prop("C36", "An option is valued by the closed formula on its own terms",
     """Before expiry a European option is worth Black's formula on the forward of its own underlying at its own expiry, its own strike, the variance of that underlying at that strike from the later of valuation and strike-setting date to expiry, and the discount to its payment date, call or put as asked. It is
     worth zero after its last date; a missing datum or a negative variance is an error rather than a number. An
     option keeps the terms it was made with, pays on its expiry moved by its own settlement rule, and cannot be made with a negative strike or a strike fraction that is not positive.""",
     ["inputs"],
     "For every option, market and valuation date.",
     "Tests price a few options at the money with a flat surface.",
     ["src/instruments/options.rs", "src/math/optionpricing.rs", "src/pricers/selfpricer.rs"],
     [("valuation", "Priceable::prices impls of the options"), ("formula", "Black76")],
     ["price of an option"])

prop("C37", "Simulated paths follow the forward, variance and correlation of the market",
     """The simulated value of an asset at each observation date is its forward times a product of unit-mean gaussian factors whose total variance is the growth of its volatility surface's variance, with fixed dividends treated as a displacement of both. Every random number is used once, in
     order, for the asset it was drawn for, and the draws of different assets have the correlations asked for.""",
     ["inputs", "configurations"],
     "For every set of assets, observation dates, correlations and number of paths.",
     "Tests simulate one asset and compare with an analytic price within a wide tolerance.",
     ["src/models/blackdiffusion.rs"],
     [("paths", "BlackDiffusion::fetch_path, fetch_paths"), ("draws", "fetch_correlated_gaussians"),
      ("sub-stepping", "calculate_substepping")],
     ["simulated paths"])

prop("C38", "A volatility surface keeps its pillars and interpolates variance between them",
     """On a pillar date a volatility surface gives that pillar's own volatilities; between two pillars total variance is linear in volatility time at equal normalised strike, with falling variance refused, and beyond them the nearest pillar applies at equal normalised strike. A flat surface or flat smile has one
     volatility for every strike, and variance is always squared volatility times volatility time.""",
     ["inputs", "configurations"],
     "For every set of pillars and smiles, every date, strike, forward and calendar.",
     "Tests sample a few dates and strikes on one surface.",
     ["src/data/volsurface.rs", "src/data/volsmile.rs"],
     [("pillars", "VolByProbability::volatilities, interp_volatilities, extrap_volatilities"),
      ("flat", "FlatVolSurface, FlatSmile"), ("variance", "VolSurface::variances, variance")],
     ["volatility interpolation"])

prop("C40", "Calls and puts satisfy put-call parity",
     """For equal terms, the value of a call minus the value of a put equals the discounted difference of forward and strike, both for the closed formula and for options valued from market data.""",
     ["inputs"], "For every forward, strike, variance, discount and market.", "Tests sample points.",
     ["src/math/optionpricing.rs", "src/instruments/options.rs"], [("formula", "Black76"), ("valuation", "Priceable::prices impls of the options")])

# ------------------------------------------------ beyond static analysis (see DESIGN.md)
prop("C41", "Converting between day number and calendar date is exact both ways",
     """Every day number in range maps to one valid year, month and day and back to the same day number, in calendar order, and day-of-week advances by one per day.""",
     ["inputs"], "For every day in the supported range.", "Tests sample dates.",
     ["src/dates/mod.rs"], [("conversion", "Date::ymd, from_ymd")])
prop("C42", "Counting and stepping business days agree with the calendar",
     """A business day is neither a weekend nor a listed holiday: stepping n business days lands on the n-th one after (before when negative) the date, or for no steps on the nearest one in the direction asked, and counting gives
     those between two dates with the part-days of its ends, nothing when the dates are the wrong way round. A calendar that gives holidays a weight counts business days plus weighted holidays, and its year likewise; year fractions
     are the count over the year. Date rules move a date by the step of their own calendar, and modified following never leaves the month.""",
     ["inputs"], "For every date, step, part-day and sorted list of weekday holidays.", "Tests sample dates and holiday lists.",
     ["src/dates/calendar.rs", "src/dates/rules.rs"], [("calendars", "Calendar impls of EveryDayCalendar, WeekdayCalendar, WeekdayAndHolidayCalendar, VolatilityCalendar"), ("rules", "DateRule impls of NullRule, BusinessDays, ModifiedFollowing")])
prop("C43", "Interpolation reproduces its data points and joins them smoothly",
     """Interpolated curves return the given value at every given abscissa; between neighbours a linear interpolator follows the straight line joining them and a spline a cubic through both. The slope and
     curvature of a spline do not jump at any point, its ends have no curvature when natural and no slope otherwise, and a spline read from a file is the one built from the same points.""",
     ["inputs"], "For every data set of any length and every abscissa.", "Tests sample points with one end rule and look only at values.",
     ["src/math/interpolation.rs"], [("interpolators", "Interpolate impls"), ("spline", "nr_spline, nr_splint, CubicSpline::new, CubicSpline::deserialize")])
prop("C44", "Simulated prices converge to analytic prices",
     """As the number of paths grows, the simulated price of an instrument with an analytic price converges to it, with unit-mean martingale paths and the requested correlations.""",
     ["inputs"], "For every instrument and market.", "Statistical.",
     ["src/models/blackdiffusion.rs", "src/pricers/montecarlo.rs"], [("paths", "BlackDiffusion")])
prop("C45", "Forwards follow the carry and drop by the dividends gone ex",
     """The forward of an equity on a date is its screen price brought back from its own settlement to the base date, less the present values of the dividends gone ex after the base date and by that date, carried at rate less borrow
     (and the yield beyond the dividends) to the settlement of that date; a proportional dividend is that fraction of the forward just before it goes ex. Sums of dividends over periods add up, and the cash still to come after a date is
     all the cash less what has gone ex by then. Dividends out of order, a yield that overlaps them, dates beyond the horizon asked for and curves that fail are errors.""",
     ["inputs"], "For every list of dividends of any length, every pair of curves, settlement rule, spot and date.", "Tests sample a few streams and dates, and none of the cash still to come.",
     ["src/data/forward.rs", "src/data/divstream.rs"], [("bootstrap", "DividendBootstrap::new, DividendStream::new"), ("look-ups", "DividendBootstrap::discounted_sum_from_base, undiscounted_sum_from_base, discounted_cash_divs_after, discounted_sum, undiscounted_sum"), ("forwards", "Forward impls of EquityForward, DriftlessForward, InterpolatedForward; discount_with_borrow")])
prop("C46", "Implied volatility reprices its target",
     """Feeding the implied volatility back into the pricer gives the target price within the tolerance for every attainable target.""",
     ["inputs"], "For every target price.", "Tests sample one target.",
     ["src/solvers/impliedvol.rs", "src/math/brent.rs"], [("solver", "zbrent")])

prop("C47", "Option values stay within bounds and rise with volatility",
     """Option values lie between discounted intrinsic value and the discounted forward or strike, and rise with volatility.""",
     ["inputs"], "For every forward, strike and variance.", "Tests sample points.",
     ["src/math/optionpricing.rs"], [("formula", "Black76")])

prop("C48", "A calculation answers every report asked for, on the one pricer",
     """A calculation values exactly the instrument, fixings and market it is given, with the pricer asked for: that pricer holds whatever the instrument has become under those fixings, every part of it with its weight. It returns one report for each one requested, in the order requested, each made from that
     pricer and its unbumped price; if the pricer cannot be made, its price cannot be found or any report fails, the whole calculation fails.""",
     ["inputs", "configurations"],
     "For every instrument, market, fixing table and list of report generators of any length.",
     "Tests ask for one or two reports on one instrument.",
     ["src/facade/mod.rs", "src/pricers/selfpricer.rs", "src/pricers/montecarlo.rs"],
     [("calculation", "facade::calculate"), ("pricers", "PricerFactory::new impls, SelfPricer::new, MonteCarloPricer::new")])



def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")


if __name__ == "__main__":
    main()
