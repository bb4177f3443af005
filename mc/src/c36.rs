//! C36: SPICE text kernels: grammar, instruments, frames, body orientation, spacecraft clocks, body names.
use crate::core::*;
use siderust::formats::spice::text::TextValue;
use siderust::formats::spice::{naif_id_for_name, FrameClass, FrameKernel, IkKernel, LeapSecondKernel, PckKernel, SclkKernel, TextKernel, TkSpec};
use siderust::formats::spice::ik::FovShape;
use std::collections::BTreeMap;

/// a value of the kernel pool, as NAIF's Kernel Required Reading describes it
#[derive(Clone, Debug, PartialEq)]
enum Item {
    I(i64),
    F(f64),
    S(&'static str),
}
use Item::*;
#[derive(Clone, Debug)]
struct Val {
    /// the items and how each is written
    items: Vec<(Item, &'static str)>,
    list: bool,
}
fn vals() -> Vec<Val> {
    let one = |i: Item, s: &'static str| Val { items: vec![(i, s)], list: false };
    let many = |v: &[(Item, &'static str)]| Val { items: v.to_vec(), list: true };
    vec![
        one(I(7), "7"),
        one(F(-1500.0), "-1.5D3"),
        one(S("a b"), "'a b'"),
        many(&[(I(1), "1"), (F(2.5), "2.5"), (I(-3), "-3")]),
        many(&[(S("it's (1)"), "'it''s (1)'"), (S("k = v += w"), "'k = v += w'")]),
        one(I(4), "+4"),
        one(F(0.5), ".5"),
        one(F(5.0), "5."),
        one(F(1e-7), "1.e-7"),
        one(F(3.2e5), "3.2d+05"),
        one(S("+=")," '+='"),
        one(S("="), "'='"),
        one(S(")"), "')'"),
        one(S("@1972-JAN-1"), "@1972-JAN-1"),
        one(S(""), "''"),
        one(S("'"), "''''"),
        many(&[(I(9), "9")]),
        many(&[]),
        many(&[(S("@1999-JAN-1"), "@1999-JAN-1"), (I(32), "32"), (F(32.184), "32.184")]),
        many(&[(S("x,y"), "'x,y'"), (F(-0.25), "-.25")]),
    ]
}
const KEYS: [&str; 3] = ["BODY399_RADII", "DELTET/DELTA_AT", "FRAME_-82000_NAME"];
/// one statement in one of the accepted layouts
fn statement(key: &str, append: bool, v: &Val, layout: usize) -> String {
    let op = if append { "+=" } else { "=" };
    let w: Vec<&str> = v.items.iter().map(|i| i.1).collect();
    match (v.list, layout) {
        (false, 0) => format!("{key} {op} {}\n", w[0]),
        (false, 1) => format!("{key}{op}{}\n", w[0]),
        (false, 2) => format!("\t {key}  \t{op}\t {}   \n\n", w[0]),
        (false, _) => format!("{key} {op} {}\r\n", w[0]),
        (true, 0) => format!("{key} {op} ( {} )\n", w.join(", ")),
        (true, 1) => format!("{key}{op}({})\n", w.join(" ")),
        (true, 2) => format!("  {key} {op}\t(\n   {}\n  )\n\n", w.join(",\n\t")),
        (true, _) => format!("{key} {op} ( {} )\r\n", w.join("\r\n      ")),
    }
}
/// what the pool holds after the statements
type Pool = BTreeMap<&'static str, (Vec<Item>, bool)>;
fn store(pool: &mut Pool, key: &'static str, append: bool, v: &Val) {
    let it: Vec<Item> = v.items.iter().map(|i| i.0.clone()).collect();
    if append {
        let e = pool.entry(key).or_insert((vec![], true));
        e.0.extend(it);
        e.1 = true;
    } else {
        pool.insert(key, (it, v.list));
    }
}
fn same(v: &TextValue, i: &Item) -> bool {
    match (v, i) {
        (TextValue::Integer(a), I(b)) => a == b,
        (TextValue::Float(a), F(b)) => a == b,
        (TextValue::Text(a), S(b)) => a == b,
        _ => false,
    }
}
fn agrees(k: &TextKernel, pool: &Pool) -> Result<(), String> {
    ensure!(k.data.len() == pool.len(), "{} names instead of {}: {:?}", k.data.len(), pool.len(), k.data);
    for (key, (items, list)) in pool {
        for spelled in [key.to_string(), key.to_lowercase()] {
            let v = k.get(&spelled).ok_or(format!("{spelled} missing"))?;
            let ok = match v {
                TextValue::Array(a) => *list && a.len() == items.len() && a.iter().zip(items).all(|(a, i)| same(a, i)),
                one => !*list && items.len() == 1 && same(one, &items[0]),
            };
            ensure!(ok, "{spelled} reads {v:?} instead of {items:?}");
            let nums: Option<Vec<f64>> = items.iter().map(|i| match i { I(n) => Some(*n as f64), F(x) => Some(*x), S(_) => None }).collect();
            ensure!(k.get_f64_array(&spelled) == nums, "{spelled} as numbers: {:?} instead of {nums:?}", k.get_f64_array(&spelled));
            let ints: Option<Vec<i64>> = items.iter().map(|i| if let I(n) = i { Some(*n) } else { None }).collect();
            ensure!(k.get_i64_array(&spelled) == ints, "{spelled} as integers: {:?} instead of {ints:?}", k.get_i64_array(&spelled));
        }
    }
    ensure!(k.get("ABSENT").is_none() && k.get_f64_array("ABSENT").is_none() && k.get_i64_array("ABSENT").is_none(), "a name that was never set has a value");
    Ok(())
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C36", "exploration", tier, "model_checking");
    ctx.assumptions = vec![
        "values follow NAIF's Kernel, Frames, PCK and SCLK Required Reading; names are looked up without regard to case, as this reader documents".into(),
        "body orientation: the linear pole and prime-meridian terms, as this reader documents".into(),
        "a clock without moduli is in ticks per second, as this reader documents".into(),
    ];
    grammar(&ctx);
    refusals(&ctx);
    instruments(&ctx);
    frames(&ctx);
    orientation(&ctx);
    clocks(&ctx);
    names(&ctx);
    ctx
}

fn grammar(ctx: &Ctx) {
    let vs = vals();
    let (nk, nv) = (KEYS.len(), vs.len());
    // every one- and two-statement kernel over the whole alphabet, in every layout; three statements over a part of it
    let mut items: Vec<(usize, Vec<usize>)> = vec![];
    for a in 0..2 * nv {
        items.push((1, vec![a]));
        for b in 0..2 * nv {
            items.push((2, vec![a, b]));
        }
    }
    let cut = ctx.pick(5, 9);
    for p in product(&[2 * cut, 2 * cut, 2 * cut]) {
        items.push((3, p));
    }
    ctx.par(&items, |l, (n, p)| {
        let dec = |c: usize, m: usize| (c % 2 == 1, c / 2 % m);
        for keys in product(&vec![if *n < 3 { nk } else { 2 }; *n]) {
            l.case("grammar", &format!("{p:?} {keys:?}"), || {
                let mut got = 0;
                for layout in 0..4 {
                    let mut pool = Pool::new();
                    let mut s = String::from("KPL/XX\nA = 1\n( 'not data\n\n  \\begindata\n");
                    for (j, (&c, &k)) in p.iter().zip(&keys).enumerate() {
                        let (append, v) = dec(c, nv);
                        store(&mut pool, KEYS[k], append, &vs[v]);
                        s += &statement(KEYS[k], append, &vs[v], (layout + j) % 4);
                        match (layout + c + j) % 5 {
                            0 => s += "\\begintext\nDELTET/DELTA_AT = ( 99\n free text 'quoted = +=\n \\begindata \n",
                            1 => s += "\n   \n",
                            2 => s += "\\BEGINTEXT\nBODY399_RADII = 0\n\t\\BEGINDATA\n",
                            _ => {}
                        }
                    }
                    if layout % 2 == 1 {
                        s += "\\begintext\nFRAME_-82000_NAME = 'LATER'\n";
                    }
                    let k = guard(|| TextKernel::parse(&s))?.map_err(|e| format!("refused: {e}\n{s}"))?;
                    agrees(&k, &pool).map_err(|e| format!("{e}\n{s}"))?;
                    got = hstr(&format!("{got}")) ^ hstr(&format!("{pool:?}"));
                }
                Ok(got)
            });
            l.states += 4 * (*n as u64 + 1);
            l.transitions += 4 * *n as u64;
        }
        l.traces += 4;
    });
}

fn refusals(ctx: &Ctx) {
    // a broken statement anywhere among good ones: the kernel is refused, not read in part
    let broken = ["A", "A 1", "= 1", "+= 1", "A =", "A +=", "A = ( 1 2", "A = 'x", "A = ( 'x )", "A = 1 2", "A = ( 1 ) 2", "A = ( 1 2 ) )", "A = 'x' 'y'", "A = ( 1 ( 2 )"];
    let good = ["B = 1", "C = ( 1 2 )", "D = 'it''s'"];
    let items = product(&[broken.len(), 4, 2]);
    ctx.par(&items, |l, p| {
        l.case("refusal", &format!("{p:?}"), || {
            let mut lines: Vec<&str> = good.to_vec();
            lines.insert(p[1], broken[p[0]]);
            let s = format!("\\begindata\n{}\n{}", lines.join("\n"), ["", "\\begintext\n"][p[2]]);
            if let Ok(k) = guard(|| TextKernel::parse(&s))? {
                return Err(format!("read as {:?}\n{s}", k.data));
            }
            Ok(hstr(&s))
        });
    });
}

fn instruments(ctx: &Ctx) {
    let shapes = [(None, ""), (Some("CIRCLE"), "'CIRCLE'"), (Some("RECTANGLE"), "'rectangle'"), (Some("ELLIPSE"), "( 'ELLIPSE' )"), (Some("POLYGON"), "'POLYGON'"), (Some("TRIANGLE"), "'Triangle'"), (None, "3")];
    let nums = [(None, ""), (Some(10.5), "10.5"), (Some(3.0), "( 3 )"), (Some(0.02), "( 2.D-2 )"), (None, "'wide'"), (None, "( 1 2 )")];
    let bores = [(None, "", true), (Some([0.0, 0.0, 1.0]), "( 0 0 1. )", true), (Some([-0.6, 0.0, 0.8]), "( -.6, 0., 8.D-1 )", true), (None, "( 0 1 )", false), (None, "( 0 0 1 0 )", false), (None, "1", false)];
    let frames = [(None, "", true), (Some("CASSINI_ISS"), "'Cassini_ISS'", true), (None, "1", false)];
    let items = product(&[shapes.len(), nums.len(), nums.len(), bores.len(), frames.len()]);
    ctx.par(&items, |l, p| {
        l.case("instrument", &format!("{p:?}"), || {
            let (sh, rf, cr, bo, fr) = (shapes[p[0]], nums[p[1]], nums[p[2]], bores[p[3]], frames[p[4]]);
            let id = -82360;
            let line = |name: &str, v: &str| if v.is_empty() { String::new() } else { format!("INS{id}_{name} = {v}\n") };
            let other = "INS-82361_FOV_SHAPE = 'CIRCLE'\nINS-82361_FOV_REF_ANGLE = ( 1.5 )\nINS77_BORESIGHT = ( 1 0 0 )\nINSPECTION_X = 3\nINS_Y = 2\n";
            let s = format!("\\begindata\n{other}{}{}{}{}{}INS{id}_NOTE = 'kept'\n", line("FOV_SHAPE", sh.1), line("FOV_REF_ANGLE", rf.1), line("FOV_CROSS_ANGLE", cr.1), line("BORESIGHT", bo.1), line("FOV_FRAME", fr.1));
            let r = guard(|| IkKernel::from_text(&s))?;
            let bad = p[0] == 6 || p[1] >= 4 || p[2] >= 4 || !bo.2 || !fr.2;
            match r {
                Err(_) if bad => Ok(0),
                Err(e) => Err(format!("refused: {e}\n{s}")),
                Ok(k) => {
                    ensure!(!bad, "a malformed instrument is read as {:?}\n{s}", k.instrument(id));
                    ensure!(k.instruments.iter().map(|i| i.inst_id).collect::<Vec<_>>() == [-82361, id, 77], "instruments {:?}", k.instruments.iter().map(|i| i.inst_id).collect::<Vec<_>>());
                    let i = k.instrument(id).ok_or("not found")?;
                    let shape = i.fov_shape.as_ref().map(|f| match f {
                        FovShape::Circle => "CIRCLE".to_string(),
                        FovShape::Rectangle => "RECTANGLE".to_string(),
                        FovShape::Ellipse => "ELLIPSE".to_string(),
                        FovShape::Polygon => "POLYGON".to_string(),
                        FovShape::Other(o) => o.clone(),
                    });
                    ensure!(shape.as_deref() == sh.0, "shape {shape:?}");
                    ensure!(i.fov_ref_angle == rf.0 && i.fov_cross_angle == cr.0, "angles {:?} {:?}", i.fov_ref_angle, i.fov_cross_angle);
                    ensure!(i.boresight == bo.0 && i.fov_frame.as_deref() == fr.0, "boresight {:?} frame {:?}", i.boresight, i.fov_frame);
                    let o = k.instrument(-82361).ok_or("second instrument missing")?;
                    ensure!(matches!(o.fov_shape, Some(FovShape::Circle)) && o.fov_ref_angle == Some(1.5) && o.boresight.is_none() && o.fov_frame.is_none(), "second instrument {o:?}");
                    ensure!(k.instrument(77).map(|i| i.boresight) == Some(Some([1.0, 0.0, 0.0])) && k.instrument(78).is_none(), "third instrument");
                    Ok(hstr(&s))
                }
            }
        });
    });
}

fn frames(ctx: &Ctx) {
    // each required entry present, absent, of the wrong type or a one-element list
    let classes = [("1", Some(FrameClass::Inertial)), ("2", Some(FrameClass::Pck)), ("( 3 )", Some(FrameClass::Ck)), ("4", Some(FrameClass::TwoVector)), ("5", Some(FrameClass::Dynamic)), ("0", None), ("6", None), ("'4'", None), ("", None)];
    let ints = [("399", Some(399)), ("( -82 )", Some(-82)), ("'EARTH'", None), ("99999999999", None), ("", None)];
    let name = [("'My_Frame'", Some("MY_FRAME")), ("( 'my_frame' )", Some("MY_FRAME")), ("12", None), ("", None)];
    let spec = ["", "M", "MR", "MX8", "MX10", "M-", "A"];
    let items = product(&[classes.len(), ints.len(), ints.len(), name.len(), spec.len()]);
    ctx.par(&items, |l, p| {
        l.case("frame", &format!("{p:?}"), || {
            let (cl, ci, ce, na, sp) = (classes[p[0]], ints[p[1]], ints[p[2]], name[p[3]], spec[p[4]]);
            let id = -82000;
            let line = |n: &str, v: &str| if v.is_empty() { String::new() } else { format!("FRAME_{id}_{n} = {v}\n") };
            // rows of the matrix that takes vectors of the frame to the relative frame; kernels list its columns
            let m = [[0.36, -0.48, 0.8], [0.8, 0.6, 0.0], [-0.48, 0.64, 0.6]];
            let cols: Vec<String> = (0..3).flat_map(|j| (0..3).map(move |i| (i, j))).map(|(i, j)| format!("{}", m[i][j])).collect();
            let vals = |n: usize| cols.iter().cycle().take(n).cloned().collect::<Vec<_>>().join("\n   ");
            let tk = match sp {
                "" => String::new(),
                "M" => format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = 'j2000'\nTKFRAME_{id}_MATRIX = ( {} )\n", vals(9)),
                "MR" => format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_MATRIX = ( {} )\n", vals(9)),
                "MX8" => format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = 'J2000'\nTKFRAME_{id}_MATRIX = ( {} )\n", vals(8)),
                "MX10" => format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = 'J2000'\nTKFRAME_{id}_MATRIX = ( {} )\n", vals(10)),
                "M-" => format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = 'J2000'\n"),
                _ => format!("TKFRAME_{id}_SPEC = 'NONSENSE'\nTKFRAME_{id}_RELATIVE = 'J2000'\n"),
            };
            let s = format!("\\begindata\nFRAME_MY_FRAME = {id}\nFRAME_10013_NAME = 'IAU_EARTH'\nFRAME_10013_CLASS = 2\nFRAME_10013_CLASS_ID = 399\nFRAME_10013_CENTER = 399\n{}{}{}{}{tk}", line("NAME", na.0), line("CLASS", cl.0), line("CLASS_ID", ci.0), line("CENTER", ce.0));
            let r = guard(|| FrameKernel::from_text(&s))?;
            // without a name there is no frame to define
            let absent = na.0.is_empty();
            let tk4 = matches!(cl.1, Some(FrameClass::TwoVector));
            let bad = !absent && (na.1.is_none() || cl.1.is_none() || ci.1.is_none() || ce.1.is_none() || (tk4 && !matches!(sp, "" | "M")));
            match r {
                Err(_) if bad => Ok(0),
                Err(e) => Err(format!("refused: {e}\n{s}")),
                Ok(k) => {
                    ensure!(!bad, "a malformed frame is read as {:?}\n{s}", k.frame_by_id(id));
                    ensure!(k.frames.len() == if absent { 1 } else { 2 }, "{} frames", k.frames.len());
                    let e = k.frame_by_name("iau_earth").ok_or("IAU_EARTH missing")?;
                    ensure!(e.id == 10013 && e.class == FrameClass::Pck && e.class_id == 399 && e.center_id == 399 && e.tk_spec.is_none(), "{e:?}");
                    ensure!(k.frame_by_id(10013).map(|f| f.name.clone()).as_deref() == Some("IAU_EARTH") && k.frame_by_id(5).is_none() && k.frame_by_name("nowhere").is_none(), "lookups");
                    if absent {
                        ensure!(k.frame_by_id(id).is_none(), "a frame without a name exists");
                        return Ok(0);
                    }
                    let f = k.frame_by_id(id).ok_or("frame missing")?;
                    ensure!(Some(f.name.as_str()) == na.1 && Some(f.class) == cl.1 && Some(f.class_id) == ci.1 && Some(f.center_id) == ce.1, "{f:?}\n{s}");
                    ensure!(k.frame_by_name("My_Frame").map(|f| f.id) == Some(id), "not found by its name");
                    match (&f.tk_spec, tk4 && sp == "M") {
                        (Some((TkSpec::Matrix(g), rel)), true) => {
                            ensure!(*g == m, "matrix {g:?} instead of {m:?}");
                            ensure!(rel == "J2000", "relative to {rel}");
                        }
                        (None, false) => {}
                        (t, _) => return Err(format!("matrix specification {t:?}\n{s}")),
                    }
                    Ok(hstr(&s))
                }
            }
        });
    });
}

fn orientation(ctx: &Ctx) {
    let n = ctx.pick(7, 13);
    let (ras, decs, ws) = (linspace(-360.0, 720.0, n), linspace(-90.0, 90.0, n), linspace(-400.0, 1000.0, n));
    let rates = [[0.0, 0.0, 0.0], [-0.641, -0.557, 360.985_623_5], [0.00607, 12.5, -84.1765755]];
    let epochs = [0.0, 86400.0, -1.0e9, 3.155_76e9, 6.3e8];
    let items = product(&[n, n, n]);
    ctx.par(&items, |l, p| {
        for (ri, r) in rates.iter().enumerate() {
            // the list length is 1, 2 or 3 numbers; a scalar is a list of one
            for form in 0..3 {
                l.case("orientation", &format!("{p:?} {ri} {form}"), || {
                    let w = |name: &str, c: f64, r: f64, u: f64| match form {
                        0 => format!("BODY499_{name} = {c}\n"),
                        1 => format!("BODY499_{name} = ( {c} {r} )\n"),
                        _ => format!("BODY499_{name} = ( {c},\n {r} {u} )\n"),
                    };
                    let s = format!("\\begindata\n{}{}{}BODY499_RADII = ( 3396.19 {} )\nBODY5_RADII = ( 1 2 3 )\nBODY6_POLE_RA = ( 1 2 )\nBODY_X = 3\n", w("POLE_RA", ras[p[0]], r[0], 0.0), w("POLE_DEC", decs[p[1]], r[1], 0.0), w("PM", ws[p[2]], r[2], 0.0), ["3376.2", "3396.19 3376.2"][ri % 2]);
                    let k = guard(|| PckKernel::from_text(&s))?.map_err(|e| format!("refused: {e}\n{s}"))?;
                    ensure!(k.bodies.len() == 3 && k.body(4).is_none(), "{} bodies", k.bodies.len());
                    let b = k.body(499).ok_or("body missing")?;
                    ensure!(b.radii == Some([3396.19, 3396.19, 3376.2]) && k.body(5).and_then(|b| b.radii) == Some([1.0, 2.0, 3.0]) && k.body(6).map(|b| b.radii.is_none() && b.pole_ra == [1.0, 2.0]) == Some(true), "radii");
                    let mut h = vec![];
                    for &et in &epochs {
                        let (t, d) = (et / 86400.0 / 36525.0, et / 86400.0);
                        let rr = if form == 0 { [0.0; 3] } else { *r };
                        let (a, e, w) = ((ras[p[0]] + rr[0] * t).to_radians(), (decs[p[1]] + rr[1] * t).to_radians(), (ws[p[2]] + rr[2] * d).rem_euclid(360.0).to_radians());
                        let z = [e.cos() * a.cos(), e.cos() * a.sin(), e.sin()];
                        // ascending node of the body's equator, and the direction 90 degrees along it
                        let q = [-a.sin(), a.cos(), 0.0];
                        let m = [z[1] * q[2] - z[2] * q[1], z[2] * q[0] - z[0] * q[2], z[0] * q[1] - z[1] * q[0]];
                        let g = guard(|| b.rotation_to_j2000(et))?;
                        for i in 0..3 {
                            let x = q[i] * w.cos() + m[i] * w.sin();
                            let y = -q[i] * w.sin() + m[i] * w.cos();
                            // the prime meridian turns 1e7 revolutions over the span
                            ensure!((g[i][0] - x).abs() < 1e-8 && (g[i][1] - y).abs() < 1e-8 && (g[i][2] - z[i]).abs() < 1e-12, "row {i} at {et}: {:?} instead of {:?}", g[i], [x, y, z[i]]);
                        }
                        h.extend(g.concat());
                    }
                    Ok(hf(&h))
                });
            }
        }
    });
}

fn clocks(ctx: &Ctx) {
    let moduli: [(&str, f64); 6] = [("( 16777216 256 )", 256.0), ("( 4294967296 65536 )", 65536.0), ("( 16777215, 91, 10, 8 )", 7280.0), ("( 1000000 )", 1.0), ("1000000", 1.0), ("( 99999 2 )", 2.0)];
    let rates = [1.0, 1.000_000_25, 0.5, 0.999_999];
    let ets = [-1.0e8, 0.0, 2.5e8];
    let items = product(&[moduli.len(), rates.len(), rates.len(), rates.len(), 2]);
    ctx.par(&items, |l, p| {
        l.case("clock", &format!("{p:?}"), || {
            let (text, per) = moduli[p[0]];
            let mut tick = 0.0;
            let mut rec = vec![];
            for i in 0..3 {
                if i > 0 {
                    tick += (ets[i] - ets[i - 1]) / rates[p[i]] * per;
                }
                rec.push((tick, ets[i], rates[p[i + 1]]));
            }
            let body: Vec<String> = rec.iter().map(|r| format!("{:?} {:?} {:?}", r.0, r.1, r.2)).collect();
            let m = format!("SCLK01_N_FIELDS_82 = ( {} )\nSCLK01_MODULI_82 = {text}\n", text.split_whitespace().count());
            let c = format!("SCLK01_COEFFICIENTS_82 = ( {} )\n", body.join("\n  "));
            let s = format!("\\begindata\nSCLK01_TIME_SYSTEM_82 = ( 1 )\nSCLK01_MODULI_83 = ( 9 7 )\n{}", if p[4] == 0 { m + &c } else { c + &m });
            let v = guard(|| SclkKernel::from_text(&s))?.map_err(|e| format!("refused: {e}\n{s}"))?;
            ensure!(v.len() == 1, "{} clocks", v.len());
            // key 82 belongs to spacecraft -82
            ensure!(v[0].sc_id == -82, "spacecraft {}", v[0].sc_id);
            let mut h = vec![];
            for et in linspace(-1.0e8, 4.0e8, 26) {
                let r = rec.iter().rev().find(|r| r.1 <= et).unwrap();
                let want = r.0 + (et - r.1) / r.2 * per;
                let g = v[0].et_to_sclkdp(et).map_err(|e| e.to_string())?;
                ensure!((g - want).abs() <= 1e-12 * want.abs() + 1e-6, "{et} s: {g} ticks instead of {want}\n{s}");
                let b = v[0].sclkdp_to_et(want).map_err(|e| e.to_string())?;
                ensure!((b - et).abs() < 1e-6, "{want} ticks: {b} s instead of {et}");
                h.push(g);
            }
            Ok(hf(&h))
        });
    });
    ctx.par(&["32.184", "( 32.184 )", "3.2184D1"], |l, d| {
        l.case("leap seconds", d, || {
            let s = format!("\\begindata\nDELTET/DELTA_T_A = {d}\nDELTET/DELTA_AT = ( 10, @1972-JAN-1\n 11, @1972-JUL-1 )\n");
            let k = guard(|| LeapSecondKernel::from_text(&s))?.map_err(|e| format!("refused: {e}\n{s}"))?;
            let g = k.tdb_minus_utc_at(-8.0e8);
            ensure!((g - 43.184).abs() < 1e-9, "TDB-UTC {g}");
            Ok(hf(&[g]))
        });
    });
}

fn names(ctx: &Ctx) {
    let table: [(&str, Option<i32>); 29] = [
        ("SSB", Some(0)), ("SOLAR SYSTEM BARYCENTER", Some(0)), ("MERCURY BARYCENTER", Some(1)), ("VENUS BARYCENTER", Some(2)), ("EMB", Some(3)), ("EARTH BARYCENTER", Some(3)), ("EARTH MOON BARYCENTER", Some(3)),
        ("MARS BARYCENTER", Some(4)), ("JUPITER BARYCENTER", Some(5)), ("SATURN BARYCENTER", Some(6)), ("URANUS BARYCENTER", Some(7)), ("NEPTUNE BARYCENTER", Some(8)), ("PLUTO BARYCENTER", Some(9)),
        // documented: the planetary ephemerides have no Pluto apart from its barycentre
        ("PLUTO", Some(9)),
        ("SUN", Some(10)), ("MERCURY", Some(199)), ("VENUS", Some(299)), ("EARTH", Some(399)), ("MOON", Some(301)), ("MARS", Some(499)), ("JUPITER", Some(599)), ("SATURN", Some(699)), ("URANUS", Some(799)), ("NEPTUNE", Some(899)),
        ("", None), ("ANDROMEDA", None), ("EARTHS", None), ("MOON BARYCENTER", None), ("SUN BARYCENTER", None),
    ];
    ctx.par(&table, |l, (n, want)| {
        l.case("name", n, || {
            let alt: String = n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c }).collect();
            for s in [n.to_string(), n.to_lowercase(), alt, format!("  {n}\t"), format!("\n{n} ")] {
                let g = guard(|| naif_id_for_name(&s))?;
                ensure!(g == *want, "{s:?} is {g:?}, not {want:?}");
            }
            Ok(hstr(n))
        });
    });
    let mut l = Local::default();
    l.case("name", "constants", || {
        use siderust::formats::spice::naif::well_known as w;
        ensure!([w::SSB, w::EARTH_MOON_BARYCENTER, w::MARS_BARYCENTER, w::JUPITER_BARYCENTER, w::SUN, w::EARTH, w::MOON, w::MARS] == [0, 3, 4, 5, 10, 399, 301, 499], "constants");
        Ok(1)
    });
    ctx.merge(l);
}
