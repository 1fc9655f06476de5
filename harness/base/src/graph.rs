use utils::graph_traversals::{dag_depth_postorder, dag_depth_postorder_multiroot};

const N: usize = 5;

/// an arbitrary acyclic graph: edges lead from smaller to larger numbers after a renaming
fn graph(n: usize) -> Vec<Vec<usize>> {
    let names = ["e01", "e02", "e03", "e04", "e12", "e13", "e14", "e23", "e24", "e34"];
    let rename = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]][sym::choose("names", 3)];
    let mut c = vec![vec![]; N];
    let mut k = 0;
    for a in 0..N {
        for b in a + 1..N {
            if b < n && sym::flag(names[k]) {
                c[rename[a]].push(rename[b]);
            }
            k += 1;
        }
    }
    if sym::flag("reversed") {
        c.iter_mut().for_each(|v| v.reverse());
    }
    c
}

fn reach(c: &[Vec<usize>], from: usize, seen: &mut [bool; N]) {
    if !seen[from] {
        seen[from] = true;
        c[from].iter().for_each(|x| reach(c, *x, seen));
    }
}

fn check(c: &[Vec<usize>], roots: &[usize], got: &[usize]) {
    let mut seen = [false; N];
    roots.iter().for_each(|r| reach(c, *r, &mut seen));
    let mut out = [false; N];
    for g in got {
        sym::check(seen[*g], "only nodes reachable from a root are visited");
        sym::check(!out[*g], "a node is visited once");
        sym::check(c[*g].iter().all(|x| out[*x]), "a node is visited after all it points to");
        out[*g] = true;
    }
    sym::check(out == seen, "every reachable node is visited");
    sym::cover(if got.len() > 2 { "large" } else { "small" });
}

//@ prop=U01
//@ time=60
//@ covers=large|small
//@ bounds=all graphs of five nodes, one root
#[no_mangle]
pub extern "C" fn h_traverse() {
    let c = graph(5);
    let root = sym::choose("root", N);
    let got: Vec<usize> = dag_depth_postorder(root, |x| c[*x].clone()).collect();
    check(&c, &[root], &got);
}

//@ prop=U01
//@ time=60
//@ covers=large|small
//@ bounds=all graphs of four nodes, up to three roots in any order, possibly the same or pointing to each other
#[no_mangle]
pub extern "C" fn h_traverse_roots() {
    let c = graph(4);
    let n = sym::choose("roots", 4);
    let roots: Vec<usize> = (0..n).map(|i| sym::choose(["r0", "r1", "r2"][i], N)).collect();
    let got: Vec<usize> = dag_depth_postorder_multiroot(roots.clone(), |x| c[*x].clone()).collect();
    check(&c, &roots, &got);
}
