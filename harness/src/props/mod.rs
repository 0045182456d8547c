use crate::engine::Run;

mod core_models;
mod essential;
mod geom;
mod tri;
mod optim;
mod options;
mod pinhole;
mod solvers;
mod stored;
mod core_points;
mod core_pose;
mod core_so3;

pub fn dispatch(run: &Run) -> bool {
    match run.id.as_str() {
        "C01" => core_points::c01(run),
        "C02" => core_pose::c02(run),
        "C03" => core_so3::c03(run),
        "C04" => core_so3::c04(run),
        "C05" => core_pose::c05(run),
        "C06" => core_so3::c06(run),
        "C07" => core_models::c07(run),
        "C08" => core_models::c08(run),
        "P01" => pinhole::p01(run),
        "P02" => pinhole::p02(run),
        "P03" => pinhole::p03(run),
        "P04" => pinhole::p04(run),
        "G01" => geom::g01(run),
        "G02" => geom::g02(run),
        "G03" => geom::g03(run),
        "G04" => geom::g04(run),
        "G05" => geom::g05(run),
        "G06" => options::g06(run),
        "E01" => essential::e01(run),
        "E02" => essential::e02(run),
        "E03" => essential::e03(run),
        "S01" => solvers::s01(run),
        "S02" => solvers::s02(run),
        "S03" => solvers::s03(run),
        "O01" => optim::o01(run),
        "O02" => optim::o02(run),
        "Z01" => stored::z01(run),
        _ => return false,
    }
    true
}
