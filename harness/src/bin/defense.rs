//! Replays scripts of configuration steps on the real builders.
use harness::*;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::master::{AddVisitorResult, CreateMCaptcha};
use libmcaptcha::mcaptcha::MCaptcha;
use libmcaptcha::{Defense, DefenseBuilder, LevelBuilder, MCaptchaBuilder};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn d32(n: u32) -> Value {
    json!([n >> 16, n & 0xffff])
}
fn d64(n: u64) -> Value {
    json!([n >> 48, (n >> 32) & 0xffff, (n >> 16) & 0xffff, n & 0xffff])
}
fn lv(ls: &[Level]) -> Value {
    ls.iter()
        .map(|l| json!({"v": d32(l.visitor_threshold), "d": d32(l.difficulty_factor)}))
        .collect()
}
fn err(e: &CaptchaError) -> &'static str {
    match e {
        CaptchaError::LevelEmpty => "LevelEmpty",
        CaptchaError::DifficultyFactorZero => "DifficultyFactorZero",
        CaptchaError::CaptchaDurationZero => "CaptchaDurationZero",
        CaptchaError::SetDifficultyFactor => "SetDifficultyFactor",
        CaptchaError::SetVisitorThreshold => "SetVisitorThreshold",
        CaptchaError::DuplicateVisitorCount => "DuplicateVisitorCount",
        CaptchaError::DecreaseingDifficultyFactor => "DecreaseingDifficultyFactor",
        CaptchaError::PleaseSetValue(_) => "PleaseSetValue",
        _ => "other",
    }
}

#[derive(Default)]
struct St {
    lb: HashMap<String, LevelBuilder>,
    db: HashMap<String, DefenseBuilder>,
    df: HashMap<String, Defense>,
    mb: HashMap<String, MCaptchaBuilder>,
    mc: HashMap<String, MCaptcha>,
}

fn mc(m: &str, op: &str, k: u32, x: &MCaptcha) {
    ev_with(
        json!({"e":"mc","m":m,"op":op,"k":k.min(i32::MAX as u32),"n":x.get_visitors(),"gd":d32(x.get_difficulty()),"dur":d64(x.get_duration())}),
        told(&x.get_defense()),
    );
}

fn told(d: &Defense) -> serde_json::Map<String, Value> {
    let ls: Vec<Level> = d.clone().into();
    let c = d.current_level();
    let v = json!({"d": d32(d.get_difficulty()), "v": d32(d.visitor_threshold()), "cd": d32(c.difficulty_factor),
        "cv": d32(c.visitor_threshold), "levels": lv(&ls)});
    v.as_object().unwrap().clone()
}

fn ev_with(base: Value, more: serde_json::Map<String, Value>) {
    let mut b = base.as_object().unwrap().clone();
    b.extend(more);
    ev(Value::Object(b));
}

impl St {
    fn op(&mut self, op: &Value) {
        let b = s(&op[1]);
        let n32 = |i: usize| u(&op[i]) as u32;
        match op[0].as_str().unwrap() {
            "lb_new" => {
                self.lb.insert(b.clone(), LevelBuilder::default());
                ev(json!({"e":"lb_new","b":b}));
            }
            "lb_v" => {
                self.lb.get_mut(&b).unwrap().visitor_threshold(n32(2));
                ev(json!({"e":"lb_v","b":b,"v":d32(n32(2))}));
            }
            "lb_d" => {
                let r = self.lb.get_mut(&b).unwrap().difficulty_factor(n32(2));
                let r = r.map(|_| "ok").unwrap_or_else(|e| err(&e));
                ev(json!({"e":"lb_d","b":b,"d":d32(n32(2)),"res":r}));
            }
            "lb_build" => match self.lb.get_mut(&b).unwrap().build() {
                Ok(l) => ev(json!({"e":"lb_build","b":b,"res":"ok","v":d32(l.visitor_threshold),"d":d32(l.difficulty_factor)})),
                Err(e) => ev(json!({"e":"lb_build","b":b,"res":err(&e)})),
            },
            "db_new" => {
                self.db.insert(b.clone(), DefenseBuilder::default());
                ev(json!({"e":"db_new","b":b}));
            }
            // ["db_add", b, v, d, through the level builder]
            "db_add" => {
                let (v, d) = (n32(2), n32(3));
                let l = if op[4].as_bool().unwrap() && d > 0 {
                    let mut x = LevelBuilder::default();
                    let r = x.visitor_threshold(v).difficulty_factor(d).and_then(|x| x.build());
                    match r {
                        Ok(l) => l,
                        Err(_) => {
                            ev(json!({"e":"panic"}));
                            return;
                        }
                    }
                } else {
                    Level { visitor_threshold: v, difficulty_factor: d }
                };
                let r = self.db.get_mut(&b).unwrap().add_level(l).map(|_| "ok").unwrap_or_else(|e| err(&e));
                ev(json!({"e":"db_add","b":b,"v":d32(v),"d":d32(d),"res":r}));
            }
            // ["db_build", b, f]
            "db_build" => match self.db.get_mut(&b).unwrap().build() {
                Ok(d) => {
                    let f = s(&op[2]);
                    let ls: Vec<Level> = d.clone().into();
                    ev(json!({"e":"db_build","b":b,"f":f,"res":"ok","levels":lv(&ls)}));
                    ev_with(json!({"e":"df","f":f,"op":"look"}), told(&d));
                    self.df.insert(f, d);
                }
                Err(e) => ev(json!({"e":"db_build","b":b,"res":err(&e)})),
            },
            // ["df", f, op]
            "df" => {
                let Some(d) = self.df.get_mut(&b) else { return };
                let what = s(&op[2]);
                match what.as_str() {
                    "up" => d.tighten_up(),
                    "down" => d.loosen_up(),
                    "max" => d.max_defense(),
                    "min" => d.min_defense(),
                    "serde" => {
                        let c: Defense = serde_json::from_str(&serde_json::to_string(d).unwrap()).unwrap();
                        *d = c;
                    }
                    _ => (),
                }
                ev_with(json!({"e":"df","f":b,"op":what}), told(d));
            }
            "mb_new" => {
                self.mb.insert(b.clone(), MCaptchaBuilder::default());
                ev(json!({"e":"mb_new","b":b}));
            }
            "mb_def" => {
                let f = s(&op[2]);
                let Some(d) = self.df.get(&f) else { return };
                self.mb.get_mut(&b).unwrap().defense(d.clone());
                ev(json!({"e":"mb_def","b":b,"f":f}));
            }
            "mb_dur" => {
                let n: u64 = op[2].as_str().unwrap().parse().unwrap();
                self.mb.get_mut(&b).unwrap().duration(n);
                ev(json!({"e":"mb_dur","b":b,"dur":d64(n)}));
            }
            "mb_build" => match self.mb.get_mut(&b).unwrap().build() {
                Ok(m) => {
                    let c: CreateMCaptcha = m.clone().into();
                    let a = AddVisitorResult::new(&m);
                    ev_with(
                        json!({"e":"mb_build","b":b,"res":"ok","dur":d64(m.get_duration()),"visitors":m.get_visitors(),
                            "cdur":d64(c.duration),"clevels":lv(&c.levels),"adur":d64(a.duration),"ad":d32(a.difficulty_factor)}),
                        told(&m.get_defense()),
                    );
                }
                Err(e) => ev(json!({"e":"mb_build","b":b,"res":err(&e)})),
            },
            // ["mc_new", m, builder]
            "mc_new" => {
                let f = s(&op[2]);
                let Ok(m) = self.mb.get_mut(&f).unwrap().build() else { return };
                ev(json!({"e":"mc_new","m":b,"b":f}));
                mc(&b, "look", 0, &m);
                self.mc.insert(b, m);
            }
            // ["mc", m, op, number]
            "mc" => {
                let Some(m) = self.mc.get_mut(&b) else { return };
                let (what, k) = (s(&op[2]), n32(3));
                match what.as_str() {
                    "visit" => {
                        for _ in 0..k.max(1) {
                            m.add_visitor();
                            mc(&b, "visit", 1, m);
                        }
                        return;
                    }
                    "dec" => m.decrement_visitor_by(k),
                    "serde" => *m = serde_json::from_str(&serde_json::to_string(m).unwrap()).unwrap(),
                    _ => (),
                }
                mc(&b, &what, k, m);
            }
            // ["mc_set", m, visitors, level]
            "mc_set" => {
                let Some(m) = self.mc.get_mut(&b) else { return };
                let ls: Vec<Level> = m.get_defense().into();
                let cur = u(&op[3]) as usize % ls.len();
                let mut v = serde_json::to_value(&*m).unwrap();
                v["visitor_threshold"] = json!(n32(2));
                v["defense"]["current_visitor_threshold"] = json!(cur);
                // (a serialised form that looks different is left alone)
                let Ok(x) = serde_json::from_value::<MCaptcha>(v) else { return };
                let at = *x.get_defense().current_level();
                if x.get_visitors() != n32(2) || at != ls[cur] {
                    return;
                }
                *m = x;
                ev(json!({"e":"mc_set","m":b,"k":n32(2),"cur":cur + 1}));
                mc(&b, "look", 0, m);
            }
            x => panic!("unknown op {x}"),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scripts = read_scripts(&a[1]);
    open_log(&a[2]);
    quiet_panics();
    watchdog(60);
    for sc in &scripts {
        ev(json!({"e":"reset"}));
        let mut st = St::default();
        for op in sc["ops"].as_array().unwrap() {
            if catch_unwind(AssertUnwindSafe(|| st.op(op))).is_err() {
                ev(json!({"e":"panic"}));
                break;
            }
        }
    }
    finish();
}
