import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":s,"meaning":"integrator time, mean motion and resonance angle","where":"src/deep_space.rs"} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="src/lib.rs";N="src/near_earth.rs";D="src/deep_space.rs";T="src/third_body.rs";M="src/model.rs";G="src/propagator.rs";E="src/gp.rs";X="src/tle.rs"
p("C01","Near-earth predictions are the SGP4 position and velocity",
"For every accepted epoch orbit whose period is shorter than 225 minutes, every drag term, gravity model and propagation time, a successful prediction is the TEME position (km) and velocity (km/s) that the published SGP4 equations give (secular gravity, atmospheric drag with the 98/156/220 km perigee rules, long-period, Kepler and short-period terms). This holds up to floating-point rounding, and the same inputs always give the same prediction.",
["inputs"],"all near-earth epoch orbits x drag terms x gravity models x times (positive, zero, negative)",
"The reference cases fix a few dozen satellites and times; a wrong coefficient, regime threshold or sign in a term that is small or inactive for those satellites (perigee below 156 km, e0<1e-4, retrograde 180 deg, large |t|) goes unnoticed.",
[L,N,G],[("epoch constants (drag and secular coefficients)","src/lib.rs Constants::new; src/near_earth.rs constants"),("secular update, Kepler solution, short-period terms","src/near_earth.rs near_earth_orbital_elements; src/lib.rs propagate_from_state")],
["Constants::new","Constants::propagate"])
p("C02","Deep-space predictions include the exact lunisolar theory (SDP4)",
"For every accepted non-resonant epoch orbit with a period of at least 225 minutes, a successful prediction is the position and velocity that the published SDP4 equations give: lunar and solar secular rates and long-period periodics computed from the epoch, applied with the Lyddane modification when the perturbed inclination is below 0.2 rad. This holds for all times, up to floating-point rounding.",
["inputs"],"all non-resonant deep-space epoch orbits x epochs x gravity models x times",
"Dozens of periodic coefficients are individually tiny; a sign or factor error in one of them moves the tested satellites by less than the test tolerance, or only matters for inclinations and epochs that are not in the tables.",
[D,T,L],[("third-body coefficients and rates","src/third_body.rs perturbations_and_dots"),("long-period periodics and Lyddane branch","src/third_body.rs long_period_periodic_effects; src/deep_space.rs deep_space_orbital_elements")],
["Constants::new","Constants::propagate","Constants::propagate_afspc_compatibility_mode"])
p("C03","Resonant orbits follow the 12 h and 24 h resonance theory",
"For every accepted one-day or half-day resonant epoch orbit, a successful prediction is what the published SDP4 resonance equations give: the geopotential resonance coefficients of the epoch orbit, integrated from epoch in 720-minute steps towards the requested time and extrapolated over the remainder. This holds for any number of integration steps in either time direction, up to floating-point rounding.",
["inputs"],"all one-day and half-day resonant orbits x epochs x times of either sign, unbounded number of steps",
"The loop runs an input-dependent number of times and the eccentricity polynomials are piecewise; tests exercise a few satellites and a few steps, mostly forward.",
[D,L],[("resonance coefficients","src/deep_space.rs constants"),("720-minute integrator","src/deep_space.rs ResonanceState::integrate")],
["Constants::new","Constants::propagate","Constants::propagate_from_state"],["ResonanceState"])
p("C04","Reusing a resonance state never changes a prediction",
"Starting from the initial state, after any sequence of propagations whose times move away from epoch in one direction, propagating with the reused state returns exactly the same result and leaves the same state as propagating with a fresh state. The state's time is always a multiple of 720 minutes, never beyond the last requested time, and a request that goes back towards epoch past the state's time or crosses epoch is refused by a panic instead of returning a wrong prediction.",
["histories","inputs"],"all monotonic sequences of propagation times of any length and spacing, both time directions",
"Histories are unbounded and the interesting ones straddle 720-minute boundaries; tests replay one fixed schedule per satellite.",
[D,L],[("monotonicity guard and step loop","src/deep_space.rs ResonanceState::integrate"),("fresh state","src/lib.rs Constants::initial_state, propagate, propagate_afspc_compatibility_mode")],
["Constants::propagate_from_state","Constants::initial_state","ResonanceState::t"],["ResonanceState"])
p("C05","Epoch orbits are accepted and routed to the right theory",
"Building propagation constants fails exactly when the epoch eccentricity is not in [0, 1), and the error carries that eccentricity. Otherwise the mean motion and eccentricity alone select the theory: periods below 225 min are near-earth, mean motions strictly between 0.0034906585 and 0.0052359877 rad/min are one-day resonant, and mean motions in [0.00826, 0.00924] rad/min with eccentricity at least 0.5 are half-day resonant; an initial state (time 0) exists exactly for resonant orbits.",
["inputs"],"all epoch orbits, including values at and next to every threshold",
"Thresholds are only distinguishable by inputs at the boundary or in the narrow bands between a right and a wrong comparison, which table-driven tests do not contain.",
[L,D,G],[("eccentricity gate and 225-minute split","src/lib.rs Constants::new"),("resonance bands","src/deep_space.rs constants"),("initial state","src/lib.rs initial_state")],
["Constants::new","Constants::initial_state"])
p("C06","Divergence is reported as the right error with the right values",
"A propagation returns an out-of-range eccentricity error exactly when the propagated mean eccentricity is outside [-0.001, 1) or is not a number, a perturbed-eccentricity error exactly when a deep-space eccentricity after lunisolar periodics is outside [0, 1] or is not a number, and a semi-latus-rectum error exactly when the semi-latus rectum is negative, checked in that order. The error carries the offending eccentricity (before the 1e-6 floor) and the requested time.",
["inputs"],"all epoch orbits x all times, including the values where a quantity crosses a limit or becomes NaN",
"Reaching the limits needs specific decayed orbits; tests contain a handful, and none that separates < from <=, the order of checks, or NaN handling.",
[L,N,D,E],[("eccentricity gates","src/near_earth.rs near_earth_orbital_elements; src/deep_space.rs deep_space_orbital_elements"),("semi-latus rectum gate","src/lib.rs propagate_from_state")],
["Constants::propagate"])
p("C07","Kozai elements convert to the Brouwer mean motion",
"Converting Kozai elements returns an orbit with the same inclination, right ascension, eccentricity, argument of perigee and mean anomaly, and with the mean motion given by the published un-Kozai equations for the given gravity model, up to rounding. It fails exactly when the Kozai mean motion, or the resulting Brouwer mean motion, is zero or negative, naming which.",
["inputs"],"all finite Kozai elements and gravity models",
"The correction is a 1e-3 relative effect: an error in one of its terms stays within tolerances for the tested satellites.",
[L],[("un-Kozai conversion","src/lib.rs Orbit::from_kozai_elements")],["Orbit::from_kozai_elements"])
p("C08","Elements initialise the documented model in both modes",
"Building constants from elements equals building them explicitly from the elements' own fields: degrees to radians, revolutions per day to radians per minute, the elements' drag term and epoch; with WGS84, IAU sidereal time and the accurate epoch in the default mode, and with WGS72, AFSPC sidereal time and the AFSPC epoch in compatibility mode. Conversion and eccentricity errors are passed through unchanged.",
["inputs","configurations"],"all elements values, both modes",
"Mixing up one model, angle or unit between the two near-identical paths changes results slightly and only for some orbits (for instance sidereal time matters only for resonant ones).",
[L,M],[("default mode","src/lib.rs from_elements"),("compatibility mode","src/lib.rs from_elements_afspc_compatibility_mode"),("gravity models","src/model.rs WGS84, WGS72")],
["Constants::from_elements","Constants::from_elements_afspc_compatibility_mode"])
p("C09","Sidereal time follows the published expressions, reduced to one turn",
"For every epoch, the IAU and the AFSPC conversions return the Greenwich sidereal angle given by their published polynomial, reduced by whole turns into [0, 2 pi), up to rounding.",
["inputs"],"all epochs, before and after J2000",
"Cubic and floor terms are negligible near the tested epochs and the reduction differs only for negative angles.",
[M],[("IAU expression","src/model.rs iau_epoch_to_sidereal_time"),("AFSPC expression","src/model.rs afspc_epoch_to_sidereal_time")],
["iau_epoch_to_sidereal_time","afspc_epoch_to_sidereal_time"])
p("C10","Epoch years count every calendar day exactly",
"For every date-time from March 1900 to February 2100, both epoch functions return (days elapsed since 1 January 2000 12:00 UTC, including the time of day to the nanosecond) / 365.25, up to rounding, so the two modes agree and later instants never get smaller epochs. They do not panic for any representable date-time.",
["inputs"],"all representable date-times (value claim: 1900-03-01 to 2100-02-28)",
"Calendar arithmetic is wrong only around particular month, leap-year or sign boundaries; two fixed dates cannot settle 73 000 days.",
[X],[("epoch expression","src/tle.rs julian_years_since_j2000"),("AFSPC epoch expression","src/tle.rs julian_years_since_j2000_afspc_compatibility_mode")],
["julian_years_since_j2000","julian_years_since_j2000_afspc_compatibility_mode","Elements::epoch"])
p("C11","Date-times and minutes since epoch convert both ways without loss",
"Converting a date-time to minutes since epoch gives the signed elapsed nanoseconds divided by 60e9, and fails exactly when they do not fit 64 bits. Converting minutes to a date-time gives the epoch plus the minutes rounded to the nearest nanosecond, and fails (never wraps or panics) exactly when the nanoseconds do not fit 64 bits or the date-time is not representable; errors carry the offending values.",
["inputs"],"all pairs of representable date-times and all minute counts",
"Overflow and rounding edges are single points in huge ranges; tests convert nothing near them.",
[X],[("datetime to minutes","src/tle.rs datetime_to_minutes_since_epoch"),("minutes to datetime","src/tle.rs minutes_since_epoch_to_datetime")],
["Elements::datetime_to_minutes_since_epoch","Elements::minutes_since_epoch_to_datetime"])
p("C12","Parsing a TLE never panics, whatever the bytes",
"For any two byte strings of any length and content, including non-ASCII bytes, parsing a TLE returns either elements or an error; it never panics, overflows or reads out of bounds.",
["inputs"],"all pairs of byte strings (any length, any bytes)",
"The input space is 256^138; a panic needs particular bytes at particular columns (for instance below '0' in the checksum column).",
[X],[("line parser","src/tle.rs from_lines"),("assumed-decimal buffer","src/tle.rs parse_decimal_point_assumed")],["Elements::from_tle"])
p("C13","Only intact TLE line pairs are accepted, and errors point at the fault",
"A line pair is accepted only if both lines have 69 bytes, start with 1 and 2, have spaces in every separator column, carry the same catalogue number, a U, C or S classification, and a last digit equal to the line checksum (digits plus one per minus sign, modulo 10). When one of these rules is broken the error names the kind of fault, the line and the column range, and the first broken rule in this order is reported: lengths, first characters, separators, catalogue numbers, checksums, then classification.",
["inputs"],"all pairs of byte strings",
"Corruption can hit any of 138 columns with any byte; tests corrupt a few columns with a few bytes.",
[X],[("integrity checks","src/tle.rs from_lines"),("checksum","src/tle.rs from_lines checksum loop")],["Elements::from_tle"])
p("C14","Every TLE field is decoded from its own columns",
"In an accepted line pair every element is the value of exactly its own column range, read as the TLE format defines it (leading blanks ignored, assumed leading decimal point and decimal exponent for drag, second derivative and eccentricity, two-digit years pivoting at 57, designator as year-launch-piece or none when blank, given object name), and changing other columns never changes it. If a field's columns do not hold a valid number, parsing fails with an error that names that line and column range.",
["inputs"],"all accepted line pairs: any digits, signs, blanks and exponents in any field",
"A shifted column or wrong pivot is invisible when the neighbouring column is blank or zero, as in most real TLEs.",
[X],[("field decoding","src/tle.rs from_lines"),("assumed decimal point","src/tle.rs parse_decimal_point_assumed"),("leading blanks","src/tle.rs trim_ascii_start_polyfill")],["Elements::from_tle"])
p("C15","The TLE epoch becomes the right date-time",
"The epoch columns (two-digit year, fractional day of year) of an accepted line pair give the date-time of that year (1957 to 2056) and day of year, at the fraction of the day rounded to the nanosecond with carry into the seconds, up to the rounding of the day number. A day outside 1 to 365 (366 in leap years) is an error.",
["inputs"],"all years 00 to 99 and all fractional days that fit the columns",
"Day 366, the year pivot, and fractions whose nanoseconds round up to a full second are rare inputs.",
[X],[("epoch decoding","src/tle.rs from_lines datetime")],["Elements::from_tle"])
p("C16","Multi-TLE text is split into every record, in order",
"Parsing a text of two-line (or three-line) records returns one element set per complete record, in order, each equal to parsing that record's own lines alone (with its own name line for three-line records), and ignores only an incomplete record at the end. If a record is malformed the error of the first such record is returned.",
["inputs"],"all texts: any number of lines, any content",
"The loop state is carried across an unbounded number of lines; tests use two records.",
[X],[("two-line grouping","src/tle.rs parse_2les"),("three-line grouping","src/tle.rs parse_3les")],["parse_2les","parse_3les"])
p("C17","OMM numbers mean the same as JSON numbers or strings, and are in range",
"When elements are deserialised, every numeric field accepts a JSON number or a string holding it and yields the same value either way (up to the last-place rounding of the JSON number reader); a value that is missing, of another type, a text that is not a number, or out of the field's integer range is an error and is never silently altered. Each field is read from its own OMM key in any order, a repeated key is an error, and a serialised element set with finite numbers deserialises back to equal values.",
["inputs"],"all JSON values in every numeric field",
"Wrap-around or truncation needs out-of-range values in one specific field and representation.",
[X],[("number-or-string decoding","src/tle.rs u64_or_string, u8_or_string, f64_or_string"),("key mapping","src/tle.rs Elements serde attributes")],["serde_json::from_str::<Elements>"])
p("C18","Compatibility mode changes only Lyddane deep-space predictions",
"The AFSPC propagation flag has no effect on near-earth orbits and on deep-space orbits whose perturbed inclination is at least 0.2 rad; on the others it only replaces the node's signed remainder by its reduction into [0, 2 pi) in the argument of perigee. The default call equals the call with the flag off and a fresh state, the compatibility call equals the call with the flag on.",
["inputs","configurations"],"all constants x times x both flag values",
"A flag leak into another branch only shows for orbits that no test runs in both modes.",
[L,D],[("Lyddane branch","src/deep_space.rs deep_space_orbital_elements"),("public wrappers","src/lib.rs propagate, propagate_afspc_compatibility_mode")],
["Constants::propagate","Constants::propagate_afspc_compatibility_mode","Constants::propagate_from_state"])
p("C19","Propagation never panics or loops forever",
"For constants built from any accepted epoch orbit and any time value, including NaN and infinities, propagating from epoch never panics, and the resonance loop always makes progress: each step moves the state 720 minutes towards the requested time and stops within one step of it, and a time that is not finite ends the loop at once.",
["inputs"],"all accepted epoch orbits x all f64 times (progress of the loop: finite times up to 1e17 minutes, beyond which 720 minutes are below the last place)",
"A hang or panic needs a special time value on a resonant orbit; tests only use ordinary times.",
[D,L],[("step loop termination","src/deep_space.rs ResonanceState::integrate"),("state assertions","src/lib.rs propagate_from_state; src/deep_space.rs deep_space_orbital_elements")],
["Constants::propagate","Constants::propagate_afspc_compatibility_mode"],["ResonanceState"])
p("C20","All feature configurations compute the same results",
"With the standard library or with libm, with or without allocation and serde support, epoch conversion, sidereal time, constants, propagation and TLE parsing follow the same equations and the same acceptance rules for all inputs; only the elementary-function implementations (rounding), the presence of the two text fields and the errors about the designator columns differ.",
["configurations","inputs"],"all inputs in each supported feature combination",
"The test suite runs in one configuration; code under the other cfg branches is never executed by it.",
[L,M,D,X],[("cfg branches","src/model.rs, src/deep_space.rs, src/tle.rs cfg(feature) blocks")],
["Constants::new","Constants::propagate","Elements::from_tle"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=True)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80,x['id']
print(len(P))
