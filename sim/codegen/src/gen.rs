//! Sequences of generator runs on a disk that fails, fills up and loses power.
use crate::vfs::{self, Disk, Node, Weather, KINDS};
use dsim::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int};

/// A generator and where it works.
struct Program {
    name: &'static str,
    run: fn() -> bool,
    /// Where the code believes to be, and where its files really are.
    home: &'static str,
    source: &'static str,
    out: &'static str,
    /// Files that there must be at the end, whatever else there is.
    expected: fn() -> Vec<String>,
}
const TYPES: [&str; 14] =
    ["U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "Bool", "F32", "F64", "String", "ObjectHandle", "ContractDataHandle"];
static PROGRAMS: [Program; 2] = [
    Program {
        name: "cs_codegen",
        run: cs_bin::run,
        home: cs_bin::HOME,
        source: "/repo/client/codegen_wrapped",
        out: "cs/src/generated/wrapped",
        expected: || {
            ["Keyframe", "State", "StateId", "StateHandle"].iter().flat_map(|k| TYPES.iter().map(move |t| format!("{k}_{t}"))).collect()
        },
    },
    Program {
        name: "rsharp_codegen",
        run: rsharp_bin::run,
        home: rsharp_bin::HOME,
        source: "/repo/crates/rsharp/codegen",
        out: "cs/src/generated",
        expected: || TYPES[..11].iter().map(|t| format!("RBox_{t}")).collect(),
    },
];
impl Program {
    fn parent(&self) -> &'static str {
        self.home.rsplit_once('/').expect("parent").0
    }
    fn out(&self) -> String {
        format!("{}/{}", self.parent(), self.out)
    }
}
/// The disk as the repository has it, for each program.
static mut IMAGES: Vec<Disk> = Vec::new();
pub fn load() {
    fn dir(d: &mut Disk, from: &str, to: &str, depth: usize) {
        d.mkdirs(to);
        let mut all: Vec<_> = std::fs::read_dir(from).expect(from).map(|e| e.expect("entry")).collect();
        all.sort_by_key(|e| e.file_name());
        for e in all {
            let n = e.file_name().into_string().expect("name");
            let (f, t) = (format!("{from}/{n}"), format!("{to}/{n}"));
            let kind = e.file_type().expect("type");
            if kind.is_dir() && depth > 0 && n != "generated" && n != "target" {
                dir(d, &f, &t, depth - 1);
            } else if kind.is_file() {
                d.put(&t, &std::fs::read(&f).expect("file"));
            }
        }
    }
    for p in &PROGRAMS {
        let mut d = Disk::default();
        dir(&mut d, p.source, p.home, 1);
        let parent = p.source.rsplit_once('/').expect("parent").0;
        d.mkdirs(&format!("{}/cs/src", p.parent()));
        let cs = format!("{parent}/cs/src");
        if std::path::Path::new(&cs).is_dir() {
            dir(&mut d, &cs, &format!("{}/cs/src", p.parent()), 0);
        }
        unsafe { IMAGES.push(d) }
    }
}

static mut ARGV: *mut *const c_char = std::ptr::null_mut();
#[used]
#[link_section = ".init_array"]
static TAKE_ARGV: extern "C" fn(c_int, *mut *const c_char) = {
    extern "C" fn take(_n: c_int, v: *mut *const c_char) {
        unsafe { ARGV = v }
    }
    take
};
fn set_args(force: bool) {
    unsafe {
        *ARGV.add(1) = if force { "-f\0".as_ptr() as *const c_char } else { std::ptr::null() };
        *ARGV.add(2) = std::ptr::null();
    }
}
/// Runs the program once: whether it reported success, and what is left.
fn launch(p: &Program, d: Disk, w: Weather, force: bool) -> (bool, vfs::State) {
    set_args(force);
    let (r, s) = vfs::process(d, w, p.home, || catching(|| (p.run)()));
    (r == Ok(true), s)
}

type Files = BTreeMap<String, Vec<u8>>;
/// What the program makes of the templates on `d` when nothing goes wrong.
fn clean(p: &Program, d: &Disk) -> Option<(Files, usize, [usize; KINDS.len()])> {
    let mut d = d.clone();
    d.remove_tree(&p.out());
    d.room = None;
    let (ok, s) = launch(p, d, Weather::default(), false);
    if !ok {
        return None;
    }
    let files: Files = s.disk.list(&p.out()).into_iter().filter(|f| !f.1)
        .map(|(n, _)| (n.clone(), s.disk.get(&format!("{}/{n}", p.out())).unwrap_or(b"").to_vec())).collect();
    for c in (p.expected)() {
        let Some(text) = files.get(&format!("{c}.cs")) else {
            violation("missing file", &format!("{} reported success without writing {c}.cs", p.name))
        };
        let text = String::from_utf8_lossy(text);
        let balance = text.matches('{').count() == text.matches('}').count();
        ensure!(balance && !text.contains("{{") && !text.contains("}}") && text.contains(&format!("class {c}")), "damaged file",
            "{} reported success but {c}.cs is incomplete: {text:?}", p.name);
    }
    Some((files, s.ops, s.by_kind))
}
fn differing(p: &Program, d: &Disk, want: &Files) -> Option<String> {
    for (n, w) in want {
        match d.get(&format!("{}/{n}", p.out())) {
            None => return Some(format!("{n} is missing")),
            Some(g) if g != &w[..] => {
                let at = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
                return Some(format!("{n} has {} bytes instead of {} and differs from byte {at} on", g.len(), w.len()));
            }
            _ => {}
        }
    }
    None
}
fn templates(p: &Program, d: &Disk) -> Vec<String> {
    d.list(p.home).into_iter().filter(|(n, dir)| !dir && n.ends_with(".tpl")).map(|(n, _)| format!("{}/{n}", p.home)).collect()
}

pub fn session() {
    let mut c = Config::default();
    c.max_points = 10_000_000;
    set_config(&c);
    let k = choose(2);
    let p = &PROGRAMS[k];
    let mut disk = unsafe { &*std::ptr::addr_of!(IMAGES) }[k].clone();
    let out = p.out();
    let mut obstacle = false;
    match weighted(&[4, 2, 2, 2, 1, 1, 1]) {
        0 => {}
        1 => {
            disk.mkdirs(out.rsplit_once('/').expect("parent").0);
        }
        2 => disk.mkdirs(&out),
        3 => {
            probe("foreign file in the output directory");
            disk.put(&format!("{out}/.keep"), b"mine\n");
        }
        4 => {
            probe("foreign directory in the output directory");
            disk.mkdirs(&format!("{out}/mine"));
        }
        5 => {
            probe("output directory is a file");
            disk.put(&out, b"mine\n");
            obstacle = true;
        }
        _ => {
            probe("directory in the place of an output file");
            let n = pick(&["U8", "F64", "Bool"]);
            let k = if k == 0 { "State" } else { "RBox" };
            disk.mkdirs(&format!("{out}/{k}_{n}.cs"));
            obstacle = true;
        }
    }
    let mut want = clean(p, &disk);
    ensure!(want.is_some() , "spurious failure", "{} failed without any fault on a clean disk", p.name);
    let typical = want.as_ref().map_or(100, |w| w.1);
    let mut by_kind = want.as_ref().map_or([1; KINDS.len()], |w| w.2);
    let mut used = disk.clone();
    used.remove_tree(&out);
    used.put(&format!("{out}/x"), b"");
    let again = launch(p, used, Weather::default(), false).1.by_kind;
    for (a, b) in by_kind.iter_mut().zip(again) {
        *a = (*a).max(b);
    }
    let n = range(1, 6);
    for i in 0..=n {
        let last = i == n;
        if !last && chance(1, 4) {
            // The templates change.
            let t = templates(p, &disk);
            if !t.is_empty() {
                let t = pick(&t.iter().map(|x| x.as_str()).collect::<Vec<_>>()).to_string();
                match weighted(&[4, 1, 1, 2]) {
                    0 => {
                        ev!("someone edits {t}");
                        let mut v = disk.get(&t).expect("template").to_vec();
                        if chance(1, 2) {
                            v.extend_from_slice(format!("// edition {i}\n").as_bytes());
                        } else {
                            let s = format!("// edition {i}\n");
                            v = [s.as_bytes(), &v[..]].concat();
                        }
                        disk.put(&t, &v);
                        probe("template edited between runs");
                    }
                    1 => {
                        ev!("someone breaks {t}");
                        disk.put(&t, b"{{#if}} {{nonsense}} {{/unless}}");
                        probe("template broken between runs");
                    }
                    3 => {
                        ev!("someone restores the templates");
                        let image = &unsafe { &*std::ptr::addr_of!(IMAGES) }[k];
                        for t in templates(p, image) {
                            disk.put(&t, image.get(&t).expect("template"));
                        }
                        probe("templates restored between runs");
                    }
                    _ => {
                        ev!("someone removes {t}");
                        disk.tree.remove(&t);
                        probe("template removed between runs");
                    }
                }
                want = clean(p, &disk);
            }
        }
        if !last && chance(1, 5) {
            // The output is tampered with.
            let f = disk.list(&out);
            if !f.is_empty() {
                let (name, dir) = &f[choose(f.len())];
                let path = format!("{out}/{name}");
                if !dir {
                    match choose(3) {
                      0 => {
                        ev!("someone removes {path}");
                        disk.tree.remove(&path);
                      }
                      1 => {
                        ev!("someone adds to {path}");
                        let v = disk.get(&path).expect("file").to_vec();
                        disk.put(&path, &[&v[..], b"// mine\n"].concat());
                      }
                      _ => {
                        ev!("someone cuts {path} short");
                        let v = disk.get(&path).expect("file").to_vec();
                        let n = choose(v.len() + 1);
                        disk.put(&path, &v[..n]);
                      }
                    }
                }
            }
        }
        let force = last || chance(1, 2);
        let mut w = Weather::default();
        disk.room = None;
        let calm = last || chance(1, 5);
        if !calm {
            match weighted(&[3, 1, 2, 2, 1, 1, 5, 3]) {
                0 => w.fail_at = Some(choose(typical + 3)),
                1 => w.fail_pm = pick(&[5, 50, 300]),
                2 => disk.room = Some(pick(&[0, choose(1 << 16), choose(1 << 12)])),
                3 => w.crash_at = Some(choose(typical + 3)),
                4 => w.broken_from = Some(choose(typical + 3)),
                5 => {}
                x => {
                    let used: Vec<usize> = (0..KINDS.len()).filter(|k| by_kind[*k] > 0).collect();
                    let k = pick(&used);
                    let nth = Some((KINDS[k], choose(by_kind[k])));
                    if x == 6 {
                        w.fail_nth = nth
                    } else {
                        w.crash_nth = nth
                    }
                }
            }
            if chance(1, 3) {
                w.short_pm = pick(&[10, 100, 400]);
            }
        }
        let before = disk.snapshot(p.parent());
        let full = !disk.list(&out).is_empty();
        ev!("{} starts{}{}", p.name, if force { " with -f" } else { "" }, if full { " on a used directory" } else { "" });
        let (ok, s) = launch(p, disk, w, force);
        let hard = s.hard_faults > 0;
        let died = s.crashed.is_some();
        disk = match s.crashed {
            Some(d) => d,
            None => s.disk,
        };
        if died {
            fault("process died");
            ev!("it died");
        } else {
            ev!("it reports {} after {} operations", if ok { "success" } else { "failure" }, s.ops);
        }
        if !died && ok {
            let Some((want, ..)) = &want else {
                violation("false success", &format!("{} reported success with unusable templates", p.name))
            };
            if let Some(x) = differing(p, &disk, want) {
                violation("false success", &format!("{} reported success but {x}", p.name));
            }
            nontrivial();
        }
        if full && !force {
            probe("unforced run on a used directory");
            ensure!(died || !ok, "overwrote", "{} reported success on a used directory without -f", p.name);
            let after = disk.snapshot(&out);
            let was: BTreeMap<_, _> = before.iter().filter(|(k, _)| k.starts_with(&format!("{out}/"))).map(|(k, v)| (k.clone(), v.clone())).collect();
            if after != was {
                let what = after.iter().find(|(k, v)| was.get(*k) != Some(v)).map(|x| x.0.clone())
                    .or_else(|| was.keys().find(|k| !after.contains_key(*k)).cloned()).unwrap_or_default();
                violation("overwrote", &format!("{} changed {what} in a used directory without -f", p.name));
            }
        } else if !died && !hard && s.soft_faults == 0 && !obstacle && want.is_some() {
            ensure!(ok, "spurious failure", "{} failed without any fault", p.name);
            probe("run without faults succeeded");
        }
        if hard {
            probe("run with failing operations");
        }
        if (died && chance(1, 2)) || (!last && !died && chance(1, 8)) {
            ev!("the machine loses power");
            fault("power lost");
            disk.lose_power();
        }
        if !last && chance(1, 12) {
            ev!("someone removes the output");
            if disk.tree.get(&out) == Some(&Node::Dir) {
                disk.remove_tree(&out);
                obstacle = false;
            }
        }
    }
    summary(&format!("{}: {} runs", p.name, n + 1));
}
