mod api;
mod common;
mod fk;
mod ik;
mod joint;
mod kin;
mod locks;
mod tree;
mod urdf;
fn main() {
    let mut h = vec![];
    h.extend(api::harnesses());
    h.extend(fk::harnesses());
    h.extend(ik::harnesses());
    h.extend(joint::harnesses());
    h.extend(kin::harnesses());
    h.extend(locks::harnesses());
    h.extend(tree::harnesses());
    h.extend(urdf::harnesses());
    symrt::drive(&h);
}
