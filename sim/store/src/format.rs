//! The stored form, read and written independently of the code under test, to
//! take files apart and put damaged ones together.
use flatbuffers::{FlatBufferBuilder, TableFinishedWIPOffset, WIPOffset};

#[derive(Clone, Debug, Default)]
pub struct File {
    pub mark: Option<[u8; 4]>,
    pub contracts: Option<Vec<Con>>,
    pub states: Option<Vec<State>>,
    pub objects: Option<Vec<Obj>>,
}
#[derive(Clone, Debug, Default)]
pub struct Con {
    pub id: Option<Id>,
    pub states: Option<Fields>,
}
#[derive(Clone, Debug, Default)]
pub struct Id {
    pub name: Option<String>,
    pub version: [u16; 3],
}
#[derive(Clone, Debug, Default)]
pub struct Fields {
    pub names: Option<Vec<String>>,
    pub types: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct State {
    pub ty: u8,
    pub value: Value,
}
#[derive(Clone, Debug)]
pub enum Value {
    /// No value at all.
    Absent,
    /// A number, index or boolean with its size in bytes.
    Num(u64, usize),
    Text(Option<String>),
}
#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub contract: Option<u16>,
    pub states: Option<Vec<u32>>,
}
/// Sizes of the values by type number.
pub const SIZES: [usize; 15] = [0, 1, 2, 4, 8, 1, 2, 4, 8, 1, 4, 8, 0, 4, 2];
pub const T_STR: u8 = 12;
pub const T_OBJ: u8 = 13;
pub const T_CON: u8 = 14;

// ------------------------------------------------------------------ reading

struct R<'a>(&'a [u8]);
impl R<'_> {
    fn num(&self, at: usize, n: usize) -> Option<u64> {
        let b = self.0.get(at..at.checked_add(n)?)?;
        Some(b.iter().rev().fold(0, |a, x| a << 8 | *x as u64))
    }
    fn follow(&self, at: usize) -> Option<usize> {
        at.checked_add(self.num(at, 4)? as usize)
    }
    /// Where a field of a table is; `Some(None)` if it isn't there.
    fn field(&self, table: usize, slot: usize) -> Option<Option<usize>> {
        let vt = (table as i64).checked_sub(self.num(table, 4)? as u32 as i32 as i64)?;
        let vt = usize::try_from(vt).ok()?;
        if slot >= self.num(vt, 2)? as usize {
            return Some(None);
        }
        Some(match self.num(vt + slot, 2)? {
            0 => None,
            o => Some(table + o as usize),
        })
    }
    fn num_field(&self, table: usize, slot: usize, n: usize) -> Option<u64> {
        match self.field(table, slot)? {
            None => Some(0),
            Some(at) => self.num(at, n),
        }
    }
    fn text(&self, at: usize) -> Option<String> {
        let n = self.num(at, 4)? as usize;
        String::from_utf8(self.0.get(at + 4..(at + 4).checked_add(n)?)?.to_vec()).ok()
    }
    fn sub<T>(&self, table: usize, slot: usize, f: impl Fn(usize) -> Option<T>) -> Option<Option<T>> {
        match self.field(table, slot)? {
            None => Some(None),
            Some(at) => Some(Some(f(self.follow(at)?)?)),
        }
    }
    fn list<T>(&self, table: usize, slot: usize, width: usize, f: impl Fn(usize) -> Option<T>) -> Option<Option<Vec<T>>> {
        self.sub(table, slot, |v| {
            let n = self.num(v, 4)? as usize;
            if n > self.0.len() {
                return None;
            }
            (0..n).map(|i| f(v + 4 + i * width)).collect()
        })
    }
}
/// What the bytes say, if they can be understood.
pub fn read(b: &[u8]) -> Option<File> {
    let r = R(b);
    let root = r.follow(0)?;
    Some(File {
        mark: b.get(4..8).map(|m| m.try_into().unwrap()),
        contracts: r.list(root, 4, 4, |at| {
            let c = r.follow(at)?;
            Some(Con {
                id: r.sub(c, 4, |t| {
                    let v = |s| r.num_field(t, s, 2).map(|n| n as u16);
                    Some(Id { name: r.sub(t, 4, |s| r.text(s))?, version: [v(6)?, v(8)?, v(10)?] })
                })?,
                states: r.sub(c, 6, |t| {
                    Some(Fields {
                        names: r.list(t, 4, 4, |at| r.text(r.follow(at)?))?,
                        types: r.list(t, 6, 1, |at| r.num(at, 1).map(|n| n as u8))?,
                    })
                })?,
            })
        })?,
        states: r.list(root, 6, 4, |at| {
            let s = r.follow(at)?;
            let ty = r.num_field(s, 4, 1)? as u8;
            // Nothing is known about values of unknown types.
            let value = if !(1..=14).contains(&ty) {
                r.field(s, 6)?.map(|_| Value::Num(0, 0))
            } else {
                r.sub(s, 6, |t| {
                    Some(match ty {
                        T_STR => Value::Text(r.sub(t, 4, |s| r.text(s))?),
                        _ => Value::Num(r.num_field(t, 4, SIZES[ty as usize])?, SIZES[ty as usize]),
                    })
                })?
            };
            Some(State { ty, value: value.unwrap_or(Value::Absent) })
        })?,
        objects: r.list(root, 8, 4, |at| {
            let o = r.follow(at)?;
            Some(Obj {
                contract: r.sub(o, 4, |t| r.num_field(t, 4, 2).map(|n| n as u16))?,
                states: r.list(o, 6, 4, |at| r.num_field(r.follow(at)?, 4, 4).map(|n| n as u32))?,
            })
        })?,
    })
}

// ------------------------------------------------------------------ writing

type T = WIPOffset<TableFinishedWIPOffset>;
fn put_num(f: &mut FlatBufferBuilder, slot: u16, v: u64, size: usize) {
    match size {
        1 => f.push_slot(slot, v as u8, 0),
        2 => f.push_slot(slot, v as u16, 0),
        4 => f.push_slot(slot, v as u32, 0),
        8 => f.push_slot(slot, v, 0),
        _ => {}
    }
}
fn num_table(f: &mut FlatBufferBuilder, v: u64, size: usize) -> T {
    let t = f.start_table();
    put_num(f, 4, v, size);
    f.end_table(t)
}
pub fn write(file: &File) -> Vec<u8> {
    let mut f = FlatBufferBuilder::new();
    let f = &mut f;
    let contracts = file.contracts.as_ref().map(|cs| {
        let cs: Vec<T> = cs
            .iter()
            .map(|c| {
                let id = c.id.as_ref().map(|id| {
                    let name = id.name.as_ref().map(|n| f.create_string(n));
                    let t = f.start_table();
                    if let Some(n) = name {
                        f.push_slot_always(4, n);
                    }
                    for i in 0..3 {
                        put_num(f, 6 + 2 * i as u16, id.version[i] as u64, 2);
                    }
                    f.end_table(t)
                });
                let st = c.states.as_ref().map(|s| {
                    let names = s.names.as_ref().map(|ns| {
                        let ns: Vec<_> = ns.iter().map(|n| f.create_string(n)).collect();
                        f.create_vector(&ns)
                    });
                    let types = s.types.as_ref().map(|ts| f.create_vector(ts));
                    let t = f.start_table();
                    if let Some(n) = names {
                        f.push_slot_always(4, n);
                    }
                    if let Some(n) = types {
                        f.push_slot_always(6, n);
                    }
                    f.end_table(t)
                });
                let t = f.start_table();
                if let Some(i) = id {
                    f.push_slot_always(4, i);
                }
                if let Some(s) = st {
                    f.push_slot_always(6, s);
                }
                f.end_table(t)
            })
            .collect();
        f.create_vector(&cs)
    });
    let states = file.states.as_ref().map(|ss| {
        let ss: Vec<T> = ss
            .iter()
            .map(|s| {
                let p = match &s.value {
                    Value::Absent => None,
                    Value::Num(v, n) => Some(num_table(f, *v, *n)),
                    Value::Text(x) => {
                        let x = x.as_ref().map(|x| f.create_string(x));
                        let t = f.start_table();
                        if let Some(x) = x {
                            f.push_slot_always(4, x);
                        }
                        Some(f.end_table(t))
                    }
                };
                let t = f.start_table();
                f.push_slot(4, s.ty, 0);
                if let Some(p) = p {
                    f.push_slot_always(6, p);
                }
                f.end_table(t)
            })
            .collect();
        f.create_vector(&ss)
    });
    let objects = file.objects.as_ref().map(|os| {
        let os: Vec<T> = os
            .iter()
            .map(|o| {
                let c = o.contract.map(|c| num_table(f, c as u64, 2));
                let s = o.states.as_ref().map(|ss| {
                    let ss: Vec<T> = ss.iter().map(|s| num_table(f, *s as u64, 4)).collect();
                    f.create_vector(&ss)
                });
                let t = f.start_table();
                if let Some(c) = c {
                    f.push_slot_always(4, c);
                }
                if let Some(s) = s {
                    f.push_slot_always(6, s);
                }
                f.end_table(t)
            })
            .collect();
        f.create_vector(&os)
    });
    let t = f.start_table();
    if let Some(c) = contracts {
        f.push_slot_always(4, c);
    }
    if let Some(s) = states {
        f.push_slot_always(6, s);
    }
    if let Some(o) = objects {
        f.push_slot_always(8, o);
    }
    let root = f.end_table(t);
    let mark = file.mark.map(|m| String::from_utf8_lossy(&m).into_owned()).filter(|m| m.len() == 4);
    f.finish(root, mark.as_deref());
    f.finished_data().to_vec()
}
