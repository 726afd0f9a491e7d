NOTE = ("Rules over value numbers computed from the compiler's MIR. Sound for the modelled language subset; "
        "a function the engine cannot model is counted as undecided and raises no alarm.")
TECH = {
    "C01": "registry initialisers, readers and tag methods summarised from MIR; tag/type bijection per trait family",
    "C02": "writer and reader of every persistable type (derived code included) value-numbered: which part goes under which key, which key fills which part; the two maps required to be inverse and no key optional; format template of dates decoded",
    "C03": "effect analysis of all code reachable from the readers; readers that reach a construct that can panic summarised for any text, every index bounded; acceptance of dates folded over the calendar; liveness of cell borrows",
    "C04": "the thread's sharing table followed as a memory cell through the scope, along normal and clean-up edges of the control-flow graph; its value number on every way out compared with that on entry",
    "C05": "writing and reading of shared objects value-numbered for any table and mode; result and table afterwards compared mode by mode; families matched with their tables",
    "C06": "market-data and datum-level bump functions value-numbered from MIR, compared per bump kind and field with the required update",
    "C07": "bump and restore of every layer value-numbered and composed; each field after restore compared with its value before the bump",
    "C08": "per bump kind, the value numbers of every cached forward, surface and path afterwards compared with those of a fresh fetch from the bumped data",
    "C20": "every function value-numbered with the fallible calls in it symbolic; at each call site the failure condition, carried out of the loops around it, must imply that the function fails",
    "C26": "every collector method value-numbered; each map afterwards compared with the required update (maximum, union, append)",
    "C27": "value numbers of every look-up compared with: the stored entry under the right key, otherwise an error",
    "C09": "each report generator value-numbered with the pricer and the save area as typestates; both must be loop-invariant and unchanged on success",
    "C10": "figures of each report value-numbered over bumped pricer states and compared with central differences of equal and opposite bumps",
    "C11": "requests a valuation makes of the context, collected from MIR as guarded value numbers, each matched with a declaration made by the same instrument under the same guard",
    "C12": "declared observations and the reads of simulated valuation, both value-numbered from MIR and matched in number and order; averaging over paths compared with the required sum",
    "C13": "fixing of weighted lists of any length and of each instrument kind value-numbered and compared with the required replacement list",
    "C14": "look-up, insertion and construction of the fixing table value-numbered for lists of any length and compared with: the entry of exactly that key, else absent or an error by date; duplicates refused",
    "C15": "fixings recorded by a date move value-numbered for any instruments and fixings and compared with the required window; pricer, market and copy after the move likewise",
    "C16": "effect analysis from every exported function over the resolved call graph up to each panic barrier; what a caught panic returns, value-numbered",
    "C17": "ownership dataflow: every reclaim, borrow and give-away of a handle or string traced with its path condition and counted per value number",
    "C18": "exported functions value-numbered for every kind of handle; result compared with the error or kind required",
    "C19": "declarations of the C header read by a C front end, matched with the exported functions of the type-checked library",
    "C21": "effect analysis of the resolved program: every mention of a library function that answers from outside its arguments, with its chain of callers; classification of every static; search of shared types, through their fields, for cells",
    "C22": "equality, order and hash of every identified type, bare and shared, value-numbered for any two values and compared with those of their ids",
    "C23": "volatility of every bumped surface kind value-numbered and compared with that of the surface it wraps, plus the bump at the strike and date asked",
    "C24": "forward variance value-numbered over the spot variances of the same surface; compared with the difference over the required dates, negative differences refused",
    "C25": "loops over weighted components solved as recurrences; value numbers compared with the weighted sum over all components, failures included",
    "C28": "value numbers of bond, asset and option valuation compared with the required discount factors",
    "C29": "value of every interpolator value-numbered over any points, abscissa and rules; each side compared with what its own rule says",
    "C30": "one round of the solver's loop value-numbered over any state; invariants linking points, values and signs inferred as a fixpoint; every success derived from them; implied volatility compared with the search it must make",
    "C31": "report comparison value-numbered for any reports and tolerance; each figure, id and size compared on both sides, text emitted exactly where they differ",
    "C32": "condition under which each constructor and reader hands out an object, value-numbered for any input, shown to exclude every forbidden input; visibility of the guarded fields from the type-checked program",
    "C33": "rate, time and discount factor of every curve kind value-numbered and compared with the rule each documents",
    "C34": "every operator of the dated types value-numbered for any operands and compared with whole-day arithmetic and the lexicographic order",
    "C35": "value numbers of settled, simulated and analytic payoffs compared with the signed payoff of the option's own terms",
    "C36": "value numbers of analytic option valuation, with conditions of failure, compared with Black's formula on the option's own terms",
    "C37": "path construction and correlation of draws value-numbered, loops solved as recurrences over paths, observations and sub-steps",
    "C38": "volatility look-up value-numbered for pillar lists of any length; the pillar hit, the interpolated and the extrapolated case each compared with the required formula",
    "C40": "difference of value numbers of call and put reduced with the symmetry of the normal distribution function",
    "C41": "conversions reduced from MIR to one closed integer expression each, constant-folded over the finite supported range of days and compared with the Gregorian calendar",
    "C42": "calendar functions reduced from MIR to one closed expression each; weekday arithmetic decided on residue classes that cover every date and step, holiday arithmetic constant-folded over every set of holidays in a window of days, the rest value-numbered",
    "C43": "interpolators value-numbered for any points; the recurrences that give a spline's curvatures solved as folds and its slope on both sides of any point compared",
    "C45": "forward, reference spot and look-ups value-numbered; the loop accumulating dividends summarised as one round over any state and compared with the required round, its exits and what is made of the last state",
    "C48": "value number of a calculation over a list of report generators of any length, and of the pricers it makes, compared with the required list of reports and conditions of failure"
}
NA = {
    "C47": "quantifies over real-valued numeric results (normal distribution tails); no static argument in reach bounds them",
    "C44": "statistical convergence is a property of runtime distributions",
    "C46": "numerical accuracy of an iterative solver over real-valued targets",
}
BOUNDS = {
    "C41": " Every day of the supported range is folded, so nothing is left out.",
    "C42": " Weekday arithmetic holds for every date and step; the calendar with holidays is decided for every set of holidays in an 11-day window only, and the partial steps of a weighted calendar are not decided.",
}
