//! The client looks around between its calls: every handle has to be the declared column, and
//! requests for columns that are not there have to be turned down, without any effect.
use crate::rng::Rng;
use crate::scenario::*;
use orc_format::schema::Schema;
use orc_format::writer::data::{BaseData, Data};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What one look around found out.
#[derive(Clone, Default, Debug)]
pub struct Looked {
    pub handles: u64,
    pub rejected: u64,
    pub wrong: Option<String>,
}

fn variant(d: &Data) -> usize {
    match d {
        Data::Boolean(_) => 0,
        Data::Long(_) => 1,
        Data::Float(_) => 2,
        Data::Double(_) => 3,
        Data::Timestamp(_) => 4,
        Data::Decimal(_) => 5,
        Data::String(_) => 6,
        Data::Binary(_) => 7,
        Data::Struct(_) => 8,
        Data::List(_) => 9,
        Data::Map(_) => 10,
        Data::Union(_) => 11,
    }
}

fn want(k: Kind) -> usize {
    match k {
        Kind::Boolean => 0,
        Kind::Short | Kind::Int | Kind::Long | Kind::Date => 1,
        Kind::Float => 2,
        Kind::Double => 3,
        Kind::Timestamp => 4,
        Kind::Decimal(..) => 5,
        Kind::Str | Kind::Char(_) | Kind::VarChar(_) => 6,
        Kind::Binary => 7,
        Kind::Struct => 8,
        Kind::List => 9,
        Kind::Map => 10,
        Kind::Union => 11,
    }
}

/// Asks for the column as another type; the address of what came back.
fn ask(d: &mut Data, as_what: usize) -> usize {
    fn at<T>(x: &mut T) -> usize {
        x as *mut T as usize
    }
    match as_what {
        0 => at(d.unwrap_boolean()),
        1 => at(d.unwrap_long()),
        2 => at(d.unwrap_float()),
        3 => at(d.unwrap_double()),
        4 => at(d.unwrap_timestamp()),
        5 => at(d.unwrap_decimal()),
        6 => at(d.unwrap_string()),
        7 => at(d.unwrap_binary()),
        8 => at(d.unwrap_struct()),
        9 => at(d.unwrap_list()),
        10 => at(d.unwrap_map()),
        _ => at(d.unwrap_union()),
    }
}

const NAMES: [&str; 12] = ["boolean", "long", "float", "double", "timestamp", "decimal", "string", "binary", "struct", "list", "map", "union"];

struct Walk<'a> {
    r: &'a mut Rng,
    /// One in so many columns is looked at closely.
    sparse: u64,
    out: Looked,
}

impl Walk<'_> {
    fn no(&mut self, id: u32, what: String) -> bool {
        if self.out.wrong.is_none() {
            self.out.wrong = Some(format!("column {}: {}", id, what));
        }
        false
    }

    fn refused(&mut self, id: u32, what: String, f: impl FnOnce()) -> bool {
        if catch_unwind(AssertUnwindSafe(f)).is_ok() {
            return self.no(id, format!("{} was not turned down", what));
        }
        self.out.rejected += 1;
        true
    }

    /// `id` is the next column id in pre-order.
    fn look(&mut self, d: &mut Data, n: &Node, id: &mut u32) -> bool {
        let me = *id;
        *id += 1;
        self.out.handles += 1;
        if variant(d) != want(n.kind) {
            return self.no(me, format!("declared {:?}, the handle is a {}", n.kind, NAMES[variant(d)]));
        }
        if BaseData::column_id(d) != me {
            return self.no(me, format!("the handle says column {}", BaseData::column_id(d)));
        }
        let close = self.r.below(self.sparse) == 0;
        if close {
            let right = ask(d, want(n.kind));
            let base = d as *mut Data as usize;
            if right < base || right >= base + std::mem::size_of::<Data>() {
                return self.no(me, "unwrapping it leads to another column".into());
            }
            for _ in 0..2 {
                let w = self.r.idx(12);
                if w != want(n.kind) && !self.refused(me, format!("taking a {} for a {}", NAMES[want(n.kind)], NAMES[w]), || { let _ = ask(d, w); }) {
                    return false;
                }
            }
        }
        let own = match d {
            Data::Boolean(x) => x.column_id(),
            Data::Long(x) => x.column_id(),
            Data::Float(x) => x.column_id(),
            Data::Double(x) => x.column_id(),
            Data::Timestamp(x) => x.column_id(),
            Data::Decimal(x) => x.column_id(),
            Data::String(x) => x.column_id(),
            Data::Binary(x) => x.column_id(),
            Data::Struct(x) => x.column_id(),
            Data::List(x) => x.column_id(),
            Data::Map(x) => x.column_id(),
            Data::Union(x) => x.column_id(),
        };
        if own != me {
            return self.no(me, format!("the unwrapped handle says column {}", own));
        }
        match d {
            Data::Long(x) => {
                let ok = matches!((x.schema(), n.kind), (Schema::Short, Kind::Short) | (Schema::Int, Kind::Int) | (Schema::Long, Kind::Long) | (Schema::Date, Kind::Date));
                ok || self.no(me, format!("declared {:?}, the handle describes another type", n.kind))
            }
            Data::String(x) => {
                let ok = match (x.schema(), n.kind) {
                    (Schema::String, Kind::Str) => true,
                    (Schema::Char(a), Kind::Char(b)) | (Schema::VarChar(a), Kind::VarChar(b)) => *a == b,
                    _ => false,
                };
                ok || self.no(me, format!("declared {:?}, the handle describes another type", n.kind))
            }
            Data::Decimal(x) => {
                let got = Kind::Decimal(x.precision(), x.scale());
                got == n.kind || self.no(me, format!("declared {:?}, the handle says {:?}", n.kind, got))
            }
            Data::Struct(x) => {
                let k = n.children.len();
                if x.children().len() != k {
                    let got = x.children().len();
                    return self.no(me, format!("{} fields declared, the handle has {}", k, got));
                }
                for (i, c) in n.children.iter().enumerate() {
                    let a = x.child(i) as *mut Data;
                    if a != &mut x.children()[i] as *mut Data {
                        return self.no(me, format!("child({}) and children()[{}] differ", i, i));
                    }
                    if !self.look(x.child(i), c, id) {
                        return false;
                    }
                }
                let beyond = self.beyond(k);
                !close || self.refused(me, format!("asking a struct of {} fields for field {}", k, beyond), || { let _ = x.child(beyond).column_id(); })
            }
            Data::Union(x) => {
                let k = n.children.len();
                if x.children().len() != k {
                    let got = x.children().len();
                    return self.no(me, format!("{} variants declared, the handle has {}", k, got));
                }
                for (i, c) in n.children.iter().enumerate() {
                    let a = x.child(i) as *mut Data;
                    if a != &mut x.children()[i] as *mut Data {
                        return self.no(me, format!("child({}) and children()[{}] differ", i, i));
                    }
                    if !self.look(x.child(i), c, id) {
                        return false;
                    }
                }
                let beyond = self.beyond(k);
                !close || self.refused(me, format!("asking a union of {} variants for variant {}", k, beyond), || { let _ = x.child(beyond).column_id(); })
            }
            Data::List(x) => self.look(x.child(), &n.children[0], id),
            Data::Map(x) => {
                let (k, v) = (x.keys() as *mut Data, x.values() as *mut Data);
                let (ck, cv) = x.children();
                if (ck as *mut Data, cv as *mut Data) != (k, v) {
                    return self.no(me, "keys(), values() and children() differ".into());
                }
                self.look(x.keys(), &n.children[0], id) && self.look(x.values(), &n.children[1], id)
            }
            _ => true,
        }
    }

    fn beyond(&mut self, k: usize) -> usize {
        // Also such as would exist if cut to fewer bits.
        let at = |bits: u32, r: &mut Rng| ((k >> bits) + 1 << bits) + r.idx(k.max(1));
        match self.r.below(7) {
            0 | 1 => k,
            2 => k + 1,
            3 => at(8, self.r),
            4 => at(16, self.r),
            5 => at(32, self.r),
            _ => usize::MAX - self.r.idx(3),
        }
    }
}

pub fn look_around(d: &mut Data, root: &Node, r: &mut Rng) -> Looked {
    let cols = root.count() as u64;
    let mut w = Walk { sparse: 1 + cols / 8, r, out: Looked::default() };
    let mut id = 0;
    w.look(d, root, &mut id);
    w.out
}
