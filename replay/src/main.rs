//! Runs the real crate on the inputs of a counterexample. One command per input line, fields
//! separated by blanks, floats as the hexadecimal bits of an f64, texts as hexadecimal bytes.
use sgp4::chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
use std::io::BufRead;

struct Words<'a>(std::str::SplitWhitespace<'a>);

impl<'a> Words<'a> {
    fn word(&mut self) -> &'a str {
        self.0.next().expect("missing field")
    }
    fn f(&mut self) -> f64 {
        f64::from_bits(u64::from_str_radix(self.word(), 16).unwrap())
    }
    fn i(&mut self) -> i64 {
        self.word().parse().unwrap()
    }
    fn bytes(&mut self) -> Vec<u8> {
        let w = self.word();
        if w == "-" {
            return Vec::new();
        }
        (0..w.len() / 2)
            .map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    }
    fn datetime(&mut self) -> NaiveDateTime {
        let (y, m, d) = (self.i(), self.i(), self.i());
        let (h, mi, s, n) = (self.i(), self.i(), self.i(), self.i());
        NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32)
            .unwrap()
            .and_hms_nano_opt(h as u32, mi as u32, s as u32, n as u32)
            .unwrap()
    }
    fn constants(&mut self) -> Result<sgp4::Constants, String> {
        let geopotential = sgp4::Geopotential {
            ae: self.f(),
            ke: self.f(),
            j2: self.f(),
            j3: self.f(),
            j4: self.f(),
        };
        let theta = self.f();
        let epoch = self.f();
        let drag = self.f();
        let orbit = sgp4::Orbit {
            inclination: self.f(),
            right_ascension: self.f(),
            eccentricity: self.f(),
            argument_of_perigee: self.f(),
            mean_anomaly: self.f(),
            mean_motion: self.f(),
        };
        sgp4::Constants::new(geopotential, |_| theta, epoch, drag, orbit)
            .map_err(|e| format!("{:?}", e))
    }
}

fn hex(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

fn show(r: Result<sgp4::Prediction, sgp4::Error>) -> String {
    match r {
        Ok(p) => format!(
            "ok {}",
            p.position
                .iter()
                .chain(p.velocity.iter())
                .map(|x| hex(*x))
                .collect::<Vec<_>>()
                .join(" ")
        ),
        Err(e) => match e {
            sgp4::Error::OutOfRangeEccentricity { eccentricity, t } => {
                format!("err OutOfRangeEccentricity {} {}", hex(eccentricity), hex(t))
            }
            sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t } => {
                format!("err OutOfRangePerturbedEccentricity {} {}", hex(eccentricity), hex(t))
            }
            sgp4::Error::NegativeSemiLatusRectum { t } => {
                format!("err NegativeSemiLatusRectum {}", hex(t))
            }
        },
    }
}

fn dt(d: &NaiveDateTime) -> String {
    format!(
        "{} {} {} {} {} {} {}",
        d.year(),
        d.month(),
        d.day(),
        d.hour(),
        d.minute(),
        d.second(),
        d.nanosecond()
    )
}

#[cfg(feature = "have_alloc")]
fn texts(e: &sgp4::Elements) -> String {
    format!("name={} id={} ", text(&e.object_name), text(&e.international_designator))
}

#[cfg(not(feature = "have_alloc"))]
fn texts(_: &sgp4::Elements) -> String {
    String::new()
}

#[cfg(feature = "have_alloc")]
fn text(s: &Option<String>) -> String {
    match s {
        None => "none".to_string(),
        Some(s) => format!("some:{}", s.bytes().map(|b| format!("{:02x}", b)).collect::<String>()),
    }
}

fn elements(e: &sgp4::Elements) -> String {
    format!(
        "{}norad={} class={:?} datetime={} ndot={} nddot={} drag={} set={} inc={} raan={} e={} argp={} m={} n={} rev={} eph={}",
        texts(e),
        e.norad_id,
        e.classification,
        dt(&e.datetime).replace(' ', ","),
        hex(e.mean_motion_dot),
        hex(e.mean_motion_ddot),
        hex(e.drag_term),
        e.element_set_number,
        hex(e.inclination),
        hex(e.right_ascension),
        hex(e.eccentricity),
        hex(e.argument_of_perigee),
        hex(e.mean_anomaly),
        hex(e.mean_motion),
        e.revolution_number,
        e.ephemeris_type,
    )
}

fn tle_error(e: &sgp4::TleError) -> String {
    format!("err {:?}", e).replace('\n', " ")
}

fn base(datetime: NaiveDateTime) -> sgp4::Elements {
    sgp4::Elements {
        #[cfg(feature = "have_alloc")]
        object_name: None,
        #[cfg(feature = "have_alloc")]
        international_designator: None,
        norad_id: 0,
        classification: sgp4::Classification::Unclassified,
        datetime,
        mean_motion_dot: 0.0,
        mean_motion_ddot: 0.0,
        drag_term: 0.0,
        element_set_number: 0,
        inclination: 0.0,
        right_ascension: 0.0,
        eccentricity: 0.0,
        argument_of_perigee: 0.0,
        mean_anomaly: 0.0,
        mean_motion: 0.0,
        revolution_number: 0,
        ephemeris_type: 0,
    }
}

fn fill(w: &mut Words) -> sgp4::Elements {
    let mut e = base(w.datetime());
    e.drag_term = w.f();
    e.inclination = w.f();
    e.right_ascension = w.f();
    e.eccentricity = w.f();
    e.argument_of_perigee = w.f();
    e.mean_anomaly = w.f();
    e.mean_motion = w.f();
    e.mean_motion_dot = w.f();
    e.mean_motion_ddot = w.f();
    e
}

fn steps(w: &mut Words, c: &sgp4::Constants) -> String {
    // a shared state over a list of times: afspc flag, then times
    let afspc = w.word() == "1";
    let mut state = c.initial_state();
    let mut out = Vec::new();
    let times: Vec<f64> = {
        let n = w.i();
        (0..n).map(|_| w.f()).collect()
    };
    for t in times {
        let r = c.propagate_from_state(sgp4::MinutesSinceEpoch(t), state.as_mut(), afspc);
        out.push(show(r));
        if let Some(s) = &state {
            out.push(format!("at {}", hex(s.t())));
        }
    }
    out.join(" ; ")
}

fn run(line: &str) -> String {
    let mut w = Words(line.split_whitespace());
    match w.word() {
        "new" => match w.constants() {
            Ok(c) => match c.initial_state() {
                None => "ok plain".to_string(),
                Some(s) => format!("ok resonant {}", hex(s.t())),
            },
            Err(e) => format!("err {}", e),
        },
        "prop" => match w.constants() {
            Err(e) => format!("newerr {}", e),
            Ok(c) => {
                let t = w.f();
                show(match w.word() {
                    "0" => c.propagate(sgp4::MinutesSinceEpoch(t)),
                    "1" => c.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t)),
                    m => {
                        let mut state = c.initial_state();
                        c.propagate_from_state(sgp4::MinutesSinceEpoch(t), state.as_mut(), m == "3")
                    }
                })
            }
        },
        "steps" => match w.constants() {
            Err(e) => format!("newerr {}", e),
            Ok(c) => steps(&mut w, &c),
        },
        "nostate" => match w.constants() {
            // a state passed, or left out, against the kind of orbit
            Err(e) => format!("newerr {}", e),
            Ok(c) => {
                let t = w.f();
                show(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), None, false))
            }
        },
        "kozai" => {
            let g = sgp4::Geopotential {
                ae: w.f(),
                ke: w.f(),
                j2: w.f(),
                j3: w.f(),
                j4: w.f(),
            };
            match sgp4::Orbit::from_kozai_elements(&g, w.f(), w.f(), w.f(), w.f(), w.f(), w.f()) {
                Ok(o) => format!(
                    "ok {} {} {} {} {} {}",
                    hex(o.inclination),
                    hex(o.right_ascension),
                    hex(o.eccentricity),
                    hex(o.argument_of_perigee),
                    hex(o.mean_anomaly),
                    hex(o.mean_motion)
                ),
                Err(e) => format!("err {:?}", e),
            }
        }
        "iau" => format!("ok {}", hex(sgp4::iau_epoch_to_sidereal_time(w.f()))),
        "afspc" => format!("ok {}", hex(sgp4::afspc_epoch_to_sidereal_time(w.f()))),
        "years" => {
            let d = w.datetime();
            format!("ok {}", hex(sgp4::julian_years_since_j2000(&d)))
        }
        "years_afspc" => {
            let d = w.datetime();
            format!("ok {}", hex(sgp4::julian_years_since_j2000_afspc_compatibility_mode(&d)))
        }
        "epochs" => {
            let d = w.datetime();
            let e = base(d);
            format!("ok {} {}", hex(e.epoch()), hex(e.epoch_afspc_compatibility_mode()))
        }
        "to_minutes" => {
            let e = base(w.datetime());
            let d = w.datetime();
            match e.datetime_to_minutes_since_epoch(&d) {
                Ok(m) => format!("ok {}", hex(m.0)),
                Err(e) => format!("err {:?}", e),
            }
        }
        "to_datetime" => {
            let e = base(w.datetime());
            match e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(w.f())) {
                Ok(d) => format!("ok {}", dt(&d)),
                Err(e) => format!("err {:?}", e),
            }
        }
        "elements" => {
            // constants from elements, observed through one prediction
            let mode = w.word().to_string();
            let e = fill(&mut w);
            let t = w.f();
            let c = if mode == "1" {
                sgp4::Constants::from_elements_afspc_compatibility_mode(&e)
            } else {
                sgp4::Constants::from_elements(&e)
            };
            match c {
                Ok(c) => show(c.propagate(sgp4::MinutesSinceEpoch(t))),
                Err(e) => format!("newerr {:?}", e),
            }
        }
        "tle" => {
            let name = w.word();
            let name = if name == "none" {
                None
            } else {
                Some(String::from_utf8(Words(name.split_whitespace()).bytes()).unwrap())
            };
            let (a, b) = (w.bytes(), w.bytes());
            #[cfg(feature = "have_alloc")]
            let r = sgp4::Elements::from_tle(name, &a, &b);
            #[cfg(not(feature = "have_alloc"))]
            let r = {
                let _: Option<String> = name;
                sgp4::Elements::from_tle(&a, &b)
            };
            match r {
                Ok(e) => format!("ok {}", elements(&e)),
                Err(e) => tle_error(&e),
            }
        }
        #[cfg(feature = "have_alloc")]
        k @ ("two" | "three") => {
            let s = String::from_utf8(w.bytes()).unwrap();
            let r = if k == "two" { sgp4::parse_2les(&s) } else { sgp4::parse_3les(&s) };
            match r {
                Ok(v) => format!("ok {} | {}", v.len(), v.iter().map(elements).collect::<Vec<_>>().join(" | ")),
                Err(e) => tle_error(&e),
            }
        }
        #[cfg(feature = "have_serde")]
        "omm" => {
            let s = String::from_utf8(w.bytes()).unwrap();
            match serde_json::from_str::<sgp4::Elements>(&s) {
                Ok(e) => format!("ok {}", elements(&e)),
                Err(e) => format!("err {}", e),
            }
        }
        #[cfg(feature = "have_serde")]
        "omm_again" => {
            let s = String::from_utf8(w.bytes()).unwrap();
            let text = match serde_json::from_str::<sgp4::Elements>(&s) {
                Ok(e) => serde_json::to_string(&e).unwrap(),
                Err(e) => return format!("err {}", e),
            };
            match serde_json::from_str::<sgp4::Elements>(&text) {
                Ok(e) => format!("ok {} | {}", elements(&e), text),
                Err(e) => format!("lost {} | {}", e, text),
            }
        }
        other => format!("unknown {}", other),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        match std::panic::catch_unwind(|| run(&line)) {
            Ok(s) => println!("{}", s),
            Err(e) => {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or(e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                println!("panic {}", m.replace('\n', " "))
            }
        }
    }
}
