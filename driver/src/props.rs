use crate::runner::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = crate::valid::props();
    v.extend(crate::robust::props());
    v.sort_by_key(|p| p.id);
    v
}
