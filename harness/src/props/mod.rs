//! One generator and one oracle per property.
use crate::case::Case;
use crate::engine::Ctx;
use crate::gen::G;

mod build;
mod camera;
mod capi;
mod geom;
mod hits;
mod indep;
mod quality;
mod store;
mod travel;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut G, u64) -> Case,
    pub check: fn(&Case, &mut Ctx) -> Result<(), String>,
    /// Number of cases of the quick and of the thorough run
    pub quick: u64,
    pub thorough: u64,
    /// When a case counts as non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

impl Prop {
    /// Whether the first parameter of a case is the builder to use.
    /// Whether a case is a scene with the builder and the leaf size in its first two numbers.
    pub fn wide_leaves(&self) -> bool {
        [
            "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C21", "C23", "C24",
            "C25",
        ]
        .contains(&self.id)
    }
    pub fn first_is_builder(&self) -> bool {
        !["C15", "C16", "C17", "C18", "C20", "C22", "C26"].contains(&self.id)
    }
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(hits::props());
    v.extend(build::props());
    v.extend(travel::props());
    v.extend(geom::props());
    v.extend(capi::props());
    v.extend(store::props());
    v.extend(indep::props());
    v.extend(quality::props());
    v.extend(camera::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Prop {
    match all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2);
        }
    }
}

/// Rejects a condition with a message of the form "kind: text".
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
