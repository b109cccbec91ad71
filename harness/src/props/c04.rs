//! C04: amalgamation.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use reCTBN::params::ParamsTrait;
use reCTBN::process::NetworkProcess;

const SMALLJ: NetCfg = NetCfg { n: (1, 5), max_card: 6, max_edges: 12, max_rows: 200, max_joint: 72, scale: 12 };
const LARGEJ: NetCfg = NetCfg { n: (2, 8), max_card: 12, max_edges: 20, max_rows: 300, max_joint: 1000, scale: 12 };

fn amalgamate(spec: &NetSpec) -> Check {
    let model = spec.net();
    let net = model.build()?;
    let ctmp = net.amalgamation();
    ensure!(ctmp.get_number_of_nodes() == 1, "{} nodes", ctmp.get_number_of_nodes());
    let s = model.joint();
    let p = ctmp.get_node(0);
    ensure!(p.get_reserved_space_as_parent() == s, "{} states instead of {}", p.get_reserved_space_as_parent(), s);
    ensure!(p.validate_params() == Ok(()), "the joint matrix does not validate: {:?}", p.validate_params());
    let cim = match node_params(p).get_cim() {
        Some(c) => c,
        None => return Err("no joint matrix".into()),
    };
    ensure!(cim.shape() == [1, s, s], "shape {:?} for {} joint states", cim.shape(), s);
    let q = model.generator();
    for i in 0..s {
        let mut off = 0.0;
        for j in 0..s {
            let got = cim[[0, i, j]];
            if i != j {
                off += got;
                ensure!(
                    close(got, q[i][j], 1e-12, 0.0),
                    "rate {:?} -> {:?} is {:e}, expected {:e}", decode(&spec.cards, i), decode(&spec.cards, j), got, q[i][j]
                );
            }
        }
        let got = cim[[0, i, i]];
        ensure!(close(got, -off, 1e-9, 0.0), "diagonal of {:?} is {:e}, off-diagonal sum {:e}", decode(&spec.cards, i), got, off);
    }
    for v in 0..model.n() {
        ensure!(node_params(net.get_node(v)).get_cim().as_ref() == Some(&model.cim_array(v)), "CIM of node {} changed", v);
        let ps: Vec<usize> = net.get_parent_set(v).into_iter().collect();
        ensure!(ps == model.parents[v], "parents of node {} changed", v);
    }
    let cyclic = spec.edges.iter().any(|(a, b)| spec.edges.contains(&(*b, *a)));
    Ok(Obs::new(!spec.edges.is_empty() && spec.n() > 1)
        .tag(cyclic, "cycle of two nodes")
        .tag(model.parents.iter().any(|p| p.len() > 1), "node with several parents")
        .tag(spec.rates.scale.abs() >= 6, "scale beyond 1e6")
        .tag(s > 10, "more than 10 joint states")
        .tag(model.has_zero_rate(), "zero rates"))
}

pub fn subs() -> Vec<Sub> {
    vec![
        sub(
            "joint generator (up to 72 states)",
            "valid networks of 1..5 nodes, mixed cardinalities, cycles, rates 1e-12..1e12; every entry of the joint matrix compared with a reference generator; non-trivial: at least one edge",
            40_000,
            || net_spec(SMALLJ),
            amalgamate,
        ),
        sub(
            "joint generator (up to 1000 states)",
            "as above with 2..8 nodes and cardinalities up to 12; non-trivial: at least one edge",
            700,
            || boxed(net_spec(LARGEJ).prop_map(|x| x)),
            amalgamate,
        ),
    ]
}
