use crate::case::Case;
use crate::rec::Rec;

pub mod conditioner;
pub mod io;
pub mod netcode;
pub mod p2p;
pub mod stack;
pub mod transport;

pub fn run(case: &Case, rec: &mut Rec) {
    match case.family.as_str() {
        "T" => transport::run(case, rec),
        "M" => stack::run(case, rec),
        "P" => p2p::run(case, rec),
        "U" => io::run(case, rec),
        "L" => conditioner::run(case, rec),
        "N" => netcode::run(case, rec),
        other => panic!("unknown family {other}"),
    }
}
