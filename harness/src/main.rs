//! Scenario interpreter: reads scenarios (one JSON object per line), drives the
//! real `traffic_sim` crate through its public API only, and writes one trace
//! (one JSON object per line) per scenario.
//!
//! usage: traffic-harness SCENARIOS.ndjson TRACES.ndjson [watchdog_s]
//!
//! Fixed-point units in the traces: lengths mm, speeds mm/s, accelerations mm/s^2,
//! time 10 us (field `dt`), unit vectors 1e-4.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use traffic_sim::math::{
    CubicBezier2d, LineSegment2d, ParametricCurve2d, Point2d, QuadraticBezier2d,
};
use traffic_sim::{
    LightState, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight, TrafficLightId,
    VehicleAttributes, VehicleId,
};

const MISSING: i64 = -999_999_999;

fn fx(v: f64, scale: f64) -> i64 {
    let r = (v * scale).round();
    if !r.is_finite() {
        return MISSING;
    }
    r.clamp(-2.0e9, 2.0e9) as i64
}
fn mm(v: f64) -> i64 {
    fx(v, 1000.0)
}
fn f(v: &Value) -> f64 {
    v.as_f64().expect("number")
}
fn u(v: &Value) -> usize {
    v.as_u64().expect("unsigned") as usize
}
fn pt(v: &Value) -> Point2d {
    Point2d::new(f(&v[0]), f(&v[1]))
}

struct PolyArc {
    c: Point2d,
    r: f64,
    a0: f64,
    a1: f64,
}
impl ParametricCurve2d for PolyArc {
    fn sample(&self, t: f64) -> Point2d {
        let a = self.a0 + t * (self.a1 - self.a0);
        Point2d::new(self.c.x + self.r * a.cos(), self.c.y + self.r * a.sin())
    }
    fn bounds(&self) -> traffic_sim::Interval<f64> {
        traffic_sim::Interval::new(0.0, 1.0)
    }
}

fn curve(v: &Value) -> Box<dyn ParametricCurve2d> {
    let p = v["pts"].as_array().expect("pts");
    match v["kind"].as_str().unwrap_or("line") {
        "line" => Box::new(LineSegment2d::from_ends(pt(&p[0]), pt(&p[1]))),
        "quad" => Box::new(QuadraticBezier2d::new(&[pt(&p[0]), pt(&p[1]), pt(&p[2])])),
        "cubic" => Box::new(CubicBezier2d::new(&[
            pt(&p[0]),
            pt(&p[1]),
            pt(&p[2]),
            pt(&p[3]),
        ])),
        "arc" => Box::new(PolyArc {
            c: pt(&p[0]),
            r: f(&p[1]),
            a0: f(&p[2]),
            a1: f(&p[3]),
        }),
        k => panic!("unknown curve {k}"),
    }
}

fn control(v: &Value) -> TrafficControl {
    match v.as_str() {
        Some("open") => TrafficControl::Open,
        Some("closed") => TrafficControl::Closed,
        _ => TrafficControl::Yield {
            distance: f(&v["distance"]),
            must_stop: v["must_stop"].as_bool().unwrap(),
            priority: v["priority"].as_i64().unwrap() as i8,
        },
    }
}

fn attrs(v: &Value) -> VehicleAttributes {
    VehicleAttributes {
        width: f(&v[0]),
        length: f(&v[1]),
        wheel_base: f(&v[2]),
        headway: f(&v[3]),
        max_acc: f(&v[4]),
        comf_dec: f(&v[5]),
    }
}

fn lstate(s: LightState) -> i64 {
    match s {
        LightState::Red => 0,
        LightState::Amber => 1,
        LightState::Green => 2,
    }
}

/// The declared curve of a link as a fine polyline with arc lengths,
/// computed without the crate's own link geometry.
struct Track(Vec<(f64, Point2d)>);

impl Track {
    fn new(c: &dyn ParametricCurve2d) -> Self {
        let b = c.bounds();
        let mut pts = vec![];
        let mut s = 0.0;
        for i in 0..=4000 {
            let p = c.sample(b.min + (b.max - b.min) * i as f64 / 4000.0);
            if let Some((_, q)) = pts.last() {
                let q: &Point2d = q;
                s += ((p.x - q.x).powi(2) + (p.y - q.y).powi(2)).sqrt();
            }
            pts.push((s, p));
        }
        Track(pts)
    }

    /// Distance from the curve, arc length of the nearest point and the tangent there.
    fn nearest(&self, p: Point2d) -> (f64, f64, f64, f64) {
        let d2 = |q: Point2d| (p.x - q.x).powi(2) + (p.y - q.y).powi(2);
        let i = (0..self.0.len())
            .min_by(|a, b| d2(self.0[*a].1).partial_cmp(&d2(self.0[*b].1)).unwrap_or(std::cmp::Ordering::Equal))
            .unwrap();
        let (a, b) = (self.0[i.saturating_sub(1)], self.0[(i + 1).min(self.0.len() - 1)]);
        let (dx, dy) = (b.1.x - a.1.x, b.1.y - a.1.y);
        let n = (dx * dx + dy * dy).sqrt();
        let (tx, ty) = (dx / n, dy / n);
        let (s, q) = self.0[i];
        let along = (p.x - q.x) * tx + (p.y - q.y) * ty;
        let across = (p.x - q.x) * -ty + (p.y - q.y) * tx;
        (across, s + along, tx, ty)
    }
}

struct Run {
    sim: Simulation,
    geom: bool,
    bits: bool,
    tracks: Vec<Track>,
    links: Vec<LinkId>,
    lidx: HashMap<LinkId, usize>,
    vehs: HashMap<usize, VehicleId>,
    vidx: HashMap<VehicleId, usize>,
    lights: Vec<TrafficLightId>,
    standalone: Vec<TrafficLight>,
    prev: HashMap<usize, f64>,
    log_probe: bool,
}

thread_local!(static EVENTS: RefCell<(Value, Vec<Value>)> = RefCell::new((Value::Null, vec![])));

fn emit(v: Value) {
    EVENTS.with(|e| e.borrow_mut().1.push(v));
}

/// Forgets the events recorded after the first `n`.
fn forget(n: usize) {
    EVENTS.with(|e| e.borrow_mut().1.truncate(n));
}

fn recorded() -> usize {
    EVENTS.with(|e| e.borrow().1.len())
}

impl Run {
    fn ids(&self, ls: &[LinkId]) -> Vec<usize> {
        ls.iter().map(|l| self.lidx[l]).collect()
    }

    /// Links are numbered from 1 in the traces (TLA+ sequences).
    fn link(&self, v: &Value) -> LinkId {
        self.links[u(v) - 1]
    }

    fn make_light(&self, v: &Value) -> TrafficLight {
        let mut light = TrafficLight::new();
        for m in v["movements"].as_array().unwrap() {
            let links: Vec<LinkId> = m["links"]
                .as_array()
                .map(|a| a.iter().map(|l| self.link(l)).collect())
                .unwrap_or_default();
            light.add_movement(
                m["conflict"].as_u64().unwrap(),
                f(&m["amber"]),
                f(&m["red"]),
                links.into_iter(),
            );
        }
        for p in v["phases"].as_array().unwrap() {
            light.add_phase(p["mask"].as_u64().unwrap(), f(&p["dur"]));
        }
        light
    }

    fn net(&self) -> Value {
        let links: Vec<Value> = self
            .links
            .iter()
            .map(|id| {
                let l = self.sim.get_link(*id);
                json!({
                    "len": mm(l.length()), "speed": mm(l.speed_limit()), "cost": l.cost(),
                    "ins": self.ids(l.links_in()), "outs": self.ids(l.links_out()),
                    "lc": self.ids(l.lane_changes()),
                    "reach": self.ids(l.reachable_lanes()),
                    "from": self.ids(l.reachable_from_lanes()),
                })
            })
            .collect();
        let iter: Vec<usize> = self.sim.iter_links().map(|l| self.lidx[&l.id()]).collect();
        let routes: Vec<[usize; 2]> = self
            .sim
            .all_routes()
            .map(|(a, b)| [self.lidx[&a], self.lidx[&b]])
            .collect();
        json!({"links": links, "iter": iter, "routes": routes})
    }

    fn veh_row(&mut self, id: VehicleId, dt: Option<f64>) -> Value {
        let v = self.sim.get_vehicle(id);
        let n = self.vidx.get(&id).copied().unwrap_or(0);
        let link = v.link_id().map(|l| self.lidx[&l]).unwrap_or(0);
        let acc = match (dt, self.prev.get(&n)) {
            (Some(dt), Some(pv)) => mm((v.vel() - pv) / dt),
            _ => MISSING,
        };
        let rc = v.rear_coords();
        let mut row = json!([
            n,
            link,
            mm(v.pos_mid()),
            mm(v.vel()),
            acc,
            mm(v.position().x),
            mm(v.position().y),
            fx(v.direction().x, 1e4),
            fx(v.direction().y, 1e4),
            mm(v.pos_rear()),
            mm(v.pos_front()),
            mm(rc[0].x),
            mm(rc[0].y),
            mm(rc[1].x),
            mm(rc[1].y),
            v.has_stopped() as i64,
            self.lidx.get(&v.destination()).copied().unwrap_or(0),
        ]);
        if self.geom && link > 0 {
            let (across, s, tx, ty) = self.tracks[link - 1].nearest(v.position());
            let row = row.as_array_mut().unwrap();
            row.extend([json!(mm(across)), json!(mm(s)), json!(fx(tx, 1e4)), json!(fx(ty, 1e4))]);
        }
        if self.bits {
            // every bit of the state that can be observed
            let xs = [v.pos_mid(), v.vel(), v.position().x, v.position().y, v.direction().x, v.direction().y];
            let h = xs.iter().fold(0u64, |h, x| {
                (h ^ x.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
            });
            row.as_array_mut().unwrap().push(json!(h >> 34));
        }
        self.prev.insert(n, v.vel());
        row
    }

    fn rows(&mut self, dt: Option<f64>) -> Value {
        let ids: Vec<VehicleId> = self.sim.iter_vehicles().map(|v| v.id()).collect();
        let mut rows: Vec<Value> = ids.into_iter().map(|id| self.veh_row(id, dt)).collect();
        rows.sort_by_key(|r| r[0].as_u64());
        Value::Array(rows)
    }

    fn light_rows(&self) -> Value {
        let it = self.sim.iter_lights().collect::<HashMap<_, _>>();
        self.lights
            .iter()
            .map(|id| {
                let l = it[id];
                l.state().map(|(_, s)| lstate(s)).collect::<Vec<_>>()
            })
            .collect::<Vec<_>>()
            .into()
    }

    fn ctl_rows(&self) -> Value {
        let mut out: Vec<[i64; 2]> = vec![];
        let it = self.sim.iter_lights().collect::<HashMap<_, _>>();
        for id in &self.lights {
            for (l, c) in it[id].get_states() {
                let c = match c {
                    TrafficControl::Open => 0,
                    TrafficControl::Yield { .. } => 1,
                    TrafficControl::Closed => 2,
                };
                out.push([self.lidx[&l] as i64, c]);
            }
        }
        json!(out)
    }

    fn op(&mut self, op: &Value) {
        match op["op"].as_str().expect("op") {
            "link" => {
                let c = curve(op);
                if self.geom {
                    self.tracks.push(Track::new(c.as_ref()));
                }
                let id = self.sim.add_link(&LinkAttributes {
                    curve: c.as_ref(),
                    speed_limit: f(&op["speed"]),
                });
                self.links.push(id);
                self.lidx.insert(id, self.links.len());
                if op["len"].is_number() {
                    emit(json!({"e": "link", "len": op["len"], "tol": op["tol"], "lim": mm(f(&op["speed"]))}));
                }
            }
            "conn" => {
                let (a, b) = (self.link(&op["a"]), self.link(&op["b"]));
                self.sim.add_link_connection(a, b);
                if op["log"].is_boolean() {
                    emit(json!({"e": "conn", "a": op["a"], "b": op["b"]}));
                }
            }
            "conv" => {
                let (a, b) = (self.link(&op["a"]), self.link(&op["b"]));
                self.sim.add_link_convergance(a, b);
            }
            "group" => {
                let ids: Vec<LinkId> = op["links"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|l| self.link(l))
                    .collect();
                self.sim
                    .add_link_group(&ids, op["mask"].as_u64().unwrap() as u32);
                if op["bits"].is_array() {
                    emit(json!({"e": "group", "links": op["links"], "mask": op["bits"]}));
                }
            }
            "net" => emit(json!({"e": "net", "net": self.net()})),
            "light" => {
                let l = self.make_light(op);
                let id = self.sim.add_traffic_light(l);
                self.lights.push(id);
                emit(json!({"e": "light", "k": self.lights.len(), "S": self.light_rows()}));
            }
            "xlight" => {
                let l = self.make_light(op);
                self.standalone.push(l);
            }
            "xlstep" => {
                let dt = f(&op["dt"]);
                for _ in 0..op["n"].as_u64().unwrap_or(1) {
                    let l = self.standalone.last_mut().unwrap();
                    l.step(dt);
                    let s: Vec<i64> = l.state().map(|(_, s)| lstate(s)).collect();
                    emit(json!({"e": "xlstep", "dt": fx(dt, 1e5), "S": [s]}));
                }
            }
            "control" => {
                let l = self.link(&op["link"]);
                self.sim.set_link_control(l, control(&op["c"]));
                emit(json!({"e": "control", "link": op["link"], "c": ctl_code(&op["c"])}));
            }
            "add" => {
                let l = self.link(&op["link"]);
                let n = u(&op["v"]);
                if let Some(clear) = op["clear"].as_f64() {
                    // Only add the vehicle if the start of the link is clear
                    let limit = 0.5 * f(&op["attr"][1]) + clear;
                    let mut vehs = self.sim.iter_vehicles();
                    if vehs.any(|v| v.link_id() == Some(l) && v.pos_rear() < limit) {
                        return;
                    }
                }
                let id = self.sim.add_vehicle(&attrs(&op["attr"]), l);
                self.vehs.insert(n, id);
                let fresh = self.vidx.insert(id, n).is_none();
                let row = self.veh_row(id, None);
                let a = op["attr"].as_array().unwrap();
                let at: Vec<i64> = a.iter().map(|x| mm(f(x))).collect();
                emit(json!({"e": "add", "v": n, "link": op["link"], "attr": at,
                    "fresh": fresh as i64, "row": row}));
            }
            "remove" => {
                let n = u(&op["v"]);
                if !self.vehs.contains_key(&n) {
                    return;
                }
                self.sim.remove_vehicle(self.vehs[&n]);
                self.prev.remove(&n);
                let rows = self.rows_static();
                emit(json!({"e": "remove", "v": n, "V": rows}));
            }
            "freeze" => {
                let n = u(&op["v"]);
                if !self.vehs.contains_key(&n) {
                    return;
                }
                let on = op["on"].as_bool().unwrap();
                self.sim.set_vehicle_frozen(self.vehs[&n], on);
                let fz = self.frozen();
                emit(json!({"e": "freeze", "v": n, "on": on as i64, "F": fz}));
            }
            "dest" => {
                let n = u(&op["v"]);
                if !self.vehs.contains_key(&n) {
                    return;
                }
                let live = self.sim.iter_vehicles().any(|v| v.id() == self.vehs[&n]);
                if live {
                    let l = self.link(&op["link"]);
                    self.sim.set_vehicle_destination(self.vehs[&n], l);
                    let d = self.sim.get_vehicle(self.vehs[&n]).destination();
                    emit(json!({"e": "dest", "v": n, "link": op["link"],
                        "got": self.lidx.get(&d).copied().unwrap_or(0)}));
                }
            }
            "lane" => {
                let n = u(&op["v"]);
                if !self.vehs.contains_key(&n) {
                    return;
                }
                let live = self.sim.iter_vehicles().any(|v| v.id() == self.vehs[&n]);
                if live {
                    // either a link or the number of lanes to the side within the group
                    let l = match op["to"].as_i64() {
                        Some(k) => {
                            let at = self.sim.get_vehicle(self.vehs[&n]).link_id();
                            let at = self.lidx[&at.expect("link")] as i64;
                            self.link(&json!(at + k))
                        }
                        None => self.link(&op["link"]),
                    };
                    let to = self.lidx[&l];
                    // not into the side of another, nor right in front of it
                    let p = self.sim.get_vehicle(self.vehs[&n]).position();
                    let gap = op["gap"].as_f64().unwrap_or(0.0);
                    let near = self.sim.iter_vehicles().any(|v| {
                        let q = v.position();
                        v.id() != self.vehs[&n]
                            && v.link_id() == Some(l)
                            && ((p.x - q.x).powi(2) + (p.y - q.y).powi(2)).sqrt() < gap
                    });
                    if near {
                        return;
                    }
                    self.sim.do_lane_change(self.vehs[&n], l, f(&op["dist"]));
                    let row = self.veh_row(self.vehs[&n], None);
                    emit(json!({"e": "lane", "v": n, "link": to,
                        "dist": mm(f(&op["dist"])), "row": row}));
                    if !op["dest"].is_null() {
                        self.op(&json!({"op": "dest", "v": n, "link": op["dest"]}));
                    }
                }
            }
            "beside" => {
                // Change to the lane given for the present one, if any
                let n = u(&op["v"]);
                let id = self.vehs.get(&n).copied();
                let veh = id.and_then(|id| self.sim.iter_vehicles().find(|v| v.id() == id));
                if let Some(at) = veh.and_then(|v| v.link_id()).map(|l| self.lidx[&l]) {
                    let pairs = op["lanes"].as_array().unwrap();
                    if let Some(p) = pairs.iter().find(|p| u(&p[0]) == at) {
                        self.op(&json!({"op": "lane", "v": n, "link": p[1], "dist": op["dist"]}));
                    }
                }
            }
            "adjust" => {
                self.sim.randomise_velocity_adjusts(f(&op["stddev"]));
                emit(json!({"e": "adjust", "sd": mm(f(&op["stddev"]))}));
            }
            "step" | "approach" => {
                let dt = f(&op["dt"]);
                for _ in 0..op["n"].as_u64().unwrap_or(1) {
                    // "approach" stops when the front of a vehicle is within `togo` of the end of link `on`
                    if let Some(togo) = op["togo"].as_f64() {
                        let on = self.link(&op["on"]);
                        let veh = self.vehs.get(&u(&op["v"])).copied();
                        let len = self.sim.get_link(on).length();
                        match self.sim.iter_vehicles().find(|v| Some(v.id()) == veh) {
                            Some(v) if v.link_id() != Some(on) || v.pos_front() + togo < len => {}
                            _ => break,
                        }
                    }
                    self.sim.step(dt);
                    let rows = self.rows(Some(dt));
                    let mut e = json!({"e": "step", "dt": fx(dt, 1e5), "f": self.sim.frame(), "V": rows});
                    if !self.lights.is_empty() {
                        e["S"] = self.light_rows();
                        e["C"] = self.ctl_rows();
                    }
                    if self.log_probe {
                        e["F"] = self.frozen();
                    }
                    emit(e);
                }
            }
            "run" => {
                // Step without recording every step
                let dt = f(&op["dt"]);
                for _ in 0..u(&op["n"]) {
                    self.sim.step(dt);
                }
                let (rows, fz) = (self.rows(None), self.frozen());
                let s = self.light_rows();
                emit(json!({"e": "run", "dt": fx(dt, 1e5), "n": op["n"], "V": rows, "F": fz, "S": s}));
            }
            "drain" => {
                // Step until every vehicle has left, at most `max` steps
                let dt = f(&op["dt"]);
                let mut n = 0;
                while n < u(&op["max"]) && self.sim.iter_vehicles().next().is_some() {
                    self.sim.step(dt);
                    n += 1;
                }
                let rows = self.rows(None);
                emit(json!({"e": "drain", "dt": fx(dt, 1e5), "n": n, "V": rows, "F": self.frozen()}));
            }
            o => panic!("unknown op {o}"),
        }
    }

    fn rows_static(&mut self) -> Value {
        let prev = self.prev.clone();
        let r = self.rows(None);
        self.prev = prev;
        r
    }

    fn frozen(&mut self) -> Value {
        let mut ids: Vec<(usize, VehicleId)> = self.vehs.iter().map(|(n, id)| (*n, *id)).collect();
        ids.sort();
        let fz: Vec<usize> = ids
            .into_iter()
            .filter(|(_, id)| self.sim.get_vehicle_frozen(*id))
            .map(|(n, _)| n)
            .collect();
        json!(fz)
    }
}

fn ctl_code(v: &Value) -> Value {
    match v.as_str() {
        Some("open") => json!([0, 0, 0, 0]),
        Some("closed") => json!([2, 0, 0, 0]),
        _ => json!([
            1,
            mm(f(&v["distance"])),
            v["must_stop"].as_bool().unwrap() as i64,
            v["priority"].as_i64().unwrap()
        ]),
    }
}

fn run_scenario(sc: &Value) -> (Vec<Value>, Option<String>) {
    EVENTS.with(|e| e.borrow_mut().1.clear());
    let mut run = Run {
        sim: Simulation::new(),
        geom: sc["geom"].as_bool().unwrap_or(false),
        bits: sc["bits"].as_bool().unwrap_or(false),
        tracks: vec![],
        links: vec![],
        lidx: HashMap::new(),
        vehs: HashMap::new(),
        vidx: HashMap::new(),
        lights: vec![],
        standalone: vec![],
        prev: HashMap::new(),
        log_probe: sc["probe"].as_bool().unwrap_or(false),
    };
    let res = catch_unwind(AssertUnwindSafe(|| {
        for op in sc["ops"].as_array().expect("ops") {
            let n = recorded();
            run.op(op);
            if op["mute"].is_boolean() {
                forget(n);
            }
        }
    }));
    let msg = res.err().map(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    });
    let ev = EVENTS.with(|e| std::mem::take(&mut e.borrow_mut().1));
    (ev, msg)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let watchdog: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(60);
    let input = BufReader::new(std::fs::File::open(&args[1]).expect("scenarios"));
    let scs: Arc<Vec<Value>> = Arc::new(
        input
            .lines()
            .map(|l| serde_json::from_str(&l.unwrap()).expect("scenario json"))
            .collect(),
    );
    let n = scs.len();
    let next = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<(usize, String)>();
    // started[i] = Some(instant) while scenario i runs
    let started: Arc<Mutex<HashMap<usize, std::time::Instant>>> = Default::default();
    let spawn = |next: Arc<AtomicUsize>, tx: mpsc::Sender<(usize, String)>| {
        let scs = scs.clone();
        let started = started.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scs.len() {
                    break;
                }
                started.lock().unwrap().insert(i, std::time::Instant::now());
                let sc = &scs[i];
                let (ev, panic) = run_scenario(sc);
                let mut out = serde_json::Map::new();
                if let Some(m) = sc.as_object() {
                    for (k, v) in m {
                        if k != "ops" {
                            out.insert(k.clone(), v.clone());
                        }
                    }
                }
                let mut ev = ev;
                if let Some(p) = panic {
                    ev.push(json!({"e": "panic", "msg": p}));
                }
                out.insert("ev".into(), Value::Array(ev));
                started.lock().unwrap().remove(&i);
                if tx.send((i, Value::Object(out).to_string())).is_err() {
                    break;
                }
            })
            .unwrap();
    };
    for _ in 0..8 {
        spawn(next.clone(), tx.clone());
    }
    let mut results: Vec<Option<String>> = vec![None; n];
    let mut done = 0;
    while done < n {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((i, s)) => {
                if results[i].is_none() {
                    results[i] = Some(s);
                    done += 1;
                }
            }
            Err(_) => {
                let hung: Vec<usize> = started
                    .lock()
                    .unwrap()
                    .iter()
                    .filter(|(_, t)| t.elapsed() > Duration::from_secs(watchdog))
                    .map(|(i, _)| *i)
                    .collect();
                for i in hung {
                    started.lock().unwrap().remove(&i);
                    if results[i].is_none() {
                        let mut out = scs[i].as_object().unwrap().clone();
                        out.remove("ops");
                        out.insert("ev".into(), json!([{"e": "panic", "msg": "hang"}]));
                        results[i] = Some(Value::Object(out).to_string());
                        done += 1;
                        spawn(next.clone(), tx.clone());
                    }
                }
            }
        }
    }
    let mut w = BufWriter::new(std::fs::File::create(&args[2]).expect("traces"));
    for r in results {
        writeln!(w, "{}", r.unwrap()).unwrap();
    }
    w.flush().unwrap();
    std::process::exit(0);
}
