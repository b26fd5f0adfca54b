pub mod docs;
pub mod growth;
pub mod parsing;
pub mod progs;
pub mod progs2;
pub mod safety;
pub mod sizes;
pub mod texts;
pub mod users;

use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(parsing::props());
    v.extend(progs::props());
    v.extend(progs2::props());
    v.extend(texts::props());
    v.extend(docs::props());
    v.extend(users::props());
    v.extend(safety::props());
    v.extend(growth::props());
    for p in &mut v {
        let more = sizes::families(p.id);
        p.families.splice(0..0, more);
    }
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
