use crate::driver::Prop;
pub mod arith;
pub mod explicit;
pub mod gen;
pub mod implicit;
pub mod isect;
pub mod tri;
pub mod poly;
pub mod poly2;
pub mod tet;
pub mod mesh;
pub mod graph;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(explicit::props());
    v.extend(arith::props());
    v.extend(implicit::props());
    v.extend(isect::props());
    v.extend(tri::props());
    v.extend(tet::props());
    v.extend(mesh::props());
    v.extend(poly::props());
    v.extend(poly2::props());
    v.extend(graph::props());
    v
}
