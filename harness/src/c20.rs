//! C20: the event container, against a list
use crate::ctx::*;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use noisy_float::prelude::*;
use particle_id::ParticleID;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(i32, [f64; 4]),
    Weight(f64),
    Scale(f64),
}

fn fv(p: &[f64; 4]) -> FourVector {
    FourVector::from([n64(p[0]), n64(p[1]), n64(p[2]), n64(p[3])])
}
fn raw(p: &FourVector) -> [f64; 4] {
    [0, 1, 2, 3].map(|i| f64::from(p[i]))
}
fn sorted(mut v: Vec<[f64; 4]>) -> Vec<[f64; 4]> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn build(ops: &[Op], with_cap: bool) -> Event {
    let mut b = if with_cap { EventBuilder::with_capacity(2) } else { EventBuilder::new() };
    for op in ops {
        match op {
            Op::Add(id, p) => {
                b.add_outgoing(ParticleID::new(*id), fv(p));
            }
            Op::Weight(w) => {
                b.add_weight(n64(*w));
            }
            Op::Scale(s) => b.rescale_energies(n64(*s)),
        }
    }
    b.build()
}

/// model: particles and weights in order of insertion
fn model(ops: &[Op]) -> (Vec<(i32, [f64; 4])>, Vec<f64>) {
    let mut ps = vec![];
    let mut ws = vec![];
    for op in ops {
        match op {
            Op::Add(id, p) => ps.push((*id, *p)),
            Op::Weight(w) => ws.push(*w),
            Op::Scale(s) => ps.iter_mut().for_each(|(_, p): &mut (i32, [f64; 4])| p.iter_mut().for_each(|x| *x *= s)),
        }
    }
    if !crate::MULTI {
        // only the last one is kept
        ws = vec![ws.last().copied().unwrap_or(0.)]
    }
    (ps, ws)
}

fn check_content(e: &Event, ps: &[(i32, [f64; 4])], ws: &[f64], ids: &[i32]) -> Result<(), String> {
    let mut seen = vec![];
    for (id, p) in e.outgoing() {
        if seen.contains(&id.id()) {
            return Err(format!("type {} occurs twice", id.id()));
        }
        seen.push(id.id());
        if p.is_empty() {
            return Err(format!("type {} without particles", id.id()));
        }
    }
    for id in ids.iter().chain(&seen) {
        let want = sorted(ps.iter().filter(|p| p.0 == *id).map(|p| p.1).collect());
        let got = sorted(e.outgoing_with_pid(ParticleID::new(*id)).iter().map(raw).collect());
        if want != got {
            return Err(format!("outgoing_with_pid({id}): {got:?}, expected {want:?}"));
        }
        let grouped = sorted(
            e.outgoing()
                .iter()
                .filter(|(i, _)| i.id() == *id)
                .flat_map(|(_, p)| p.iter().map(raw))
                .collect(),
        );
        if want != grouped {
            return Err(format!("outgoing() for type {id}: {grouped:?}, expected {want:?}"));
        }
    }
    for p in e.outgoing().iter().flat_map(|(_, p)| p.iter()) {
        let r = raw(p);
        let pt = (r[1] * r[1] + r[2] * r[2]).sqrt();
        if (f64::from(p.pt()) - pt).abs() > 1e-12 * (1. + pt) {
            return Err(format!("transverse momentum {} of {r:?}", p.pt()));
        }
    }
    let got: Vec<f64> = e.weights.read().iter().map(|w| f64::from(*w)).collect();
    if got != ws || e.n_weights() != ws.len() {
        return Err(format!("weights {got:?} ({}), expected {ws:?}", e.n_weights()));
    }
    if !ws.is_empty() && f64::from(e.weight()) != ws[0] {
        return Err(format!("central weight {}, expected {}", e.weight(), ws[0]));
    }
    if e.id() != 0 || e.id != 0 {
        return Err("id is not zero".into());
    }
    Ok(())
}

fn one(ctx: &Ctx, ops: &[Op], ids: &[i32]) {
    let name = || if ops.len() > 150 { format!("{}operations{:x}", ops.len(), hash_of(&format!("{ops:?}"))) } else { format!("{ops:?}").replace(' ', "") };
    if ctx.only.is_some() && !ctx.want(&name()) {
        return;
    }
    ctx.eval();
    ctx.transitions.fetch_add(ops.len() as u64 + 1, SeqCst);
    let (ps, ws) = model(ops);
    let r = mcsched::quiet(|| {
        let e = build(ops, ops.len() % 2 == 0);
        check_content(&e, &ps, &ws, ids)?;
        // the canonical order: that of the sorted particles
        let mut s = ps.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut sops: Vec<Op> = s.iter().map(|p| Op::Add(p.0, p.1)).collect();
        sops.extend(ws.iter().map(|w| Op::Weight(*w)));
        let c = build(&sops, true);
        if e.outgoing() != c.outgoing() {
            return Err(format!("{:?} depends on the order of insertion ({:?})", e.outgoing(), c.outgoing()));
        }
        if e != c || e.cmp(&c) != std::cmp::Ordering::Equal {
            return Err("events with the same particles are not equal".to_string());
        }
        // weights
        let mut e = e;
        for scale in [0.5, -2., 1e-3] {
            let before: Vec<f64> = e.weights.read().iter().map(|w| f64::from(*w)).collect();
            e.rescale_weights(n64(scale));
            let after: Vec<f64> = e.weights.read().iter().map(|w| f64::from(*w)).collect();
            if after != before.iter().map(|w| w * scale).collect::<Vec<_>>() {
                return Err(format!("rescaled by {scale} from {before:?} to {after:?}"));
            }
        }
        if !e.weights.read().is_empty() {
            let old = e.weights.read().clone();
            let mut sum = old.clone();
            sum += &old;
            let s: Vec<f64> = sum.iter().map(|w| f64::from(*w)).collect();
            let o: Vec<f64> = old.iter().map(|w| f64::from(*w)).collect();
            if s != o.iter().map(|x| 2. * x).collect::<Vec<_>>() || s.len() != sum.len() {
                return Err(format!("{o:?} + itself is {s:?}"));
            }
            let mut cp = sum.clone();
            cp.copy_from(&old);
            if cp != old {
                return Err("copy_from does not copy".to_string());
            }
        }
        // extraction
        let out = e.outgoing().to_vec();
        if e.into_outgoing().to_vec() != out {
            return Err("into_outgoing differs from outgoing".to_string());
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {
            if ps.len() > 1 {
                ctx.nontrivial(hash_of(&name()));
            }
        }
        Ok(Err(e)) => ctx.fail(&name(), e, json!({})),
        Err(e) => ctx.fail(&name(), format!("panic: {e}"), json!({})),
    }
}

/// a larger event: every type of a list, several times, in a fixed scrambled order
fn many(n: usize, step: usize) -> Vec<Op> {
    (0..n)
        .map(|i| {
            let k = (i * step) % n;
            Op::Add([21, 1, -1, 2, -2, 22, 11, -11, 90, 82, 83, 13, 5, -5, 111, 211, -211][k % 17], [k as f64, (k / 17) as f64, -(k as f64), 1.])
        })
        .collect()
}

fn four_vectors(ctx: &Ctx) {
    let al = [-3., 0., 0.5, 4.];
    let vs: Vec<[f64; 4]> = Odometer::pow(4, 4).map(|o| [al[o[0]], al[o[1]], al[o[2]], al[o[3]]]).collect();
    let same = |a: &FourVector, b: [f64; 4]| -> bool {
        let pt = (b[1] * b[1] + b[2] * b[2]).sqrt();
        let sp = b[1] * b[1] + b[2] * b[2] + b[3] * b[3];
        let near = |x: N64, y: f64| (f64::from(x) - y).abs() <= 1e-12 * (1. + y.abs());
        raw(a) == b
            && near(a.pt(), pt)
            && near(a.spatial_norm_sq(), sp)
            && near(a.spatial_norm(), sp.sqrt())
            && near(a.euclid_norm_sq(), sp + b[0] * b[0])
            && near(a.euclid_norm(), (sp + b[0] * b[0]).sqrt())
    };
    for a in &vs {
        for b in &vs {
            ctx.eval();
            let name = format!("four-vectors/{a:?}/{b:?}").replace(' ', "");
            if !ctx.want(&name) {
                continue;
            }
            let (x, y) = (fv(a), fv(b));
            let add = [0, 1, 2, 3].map(|i| a[i] + b[i]);
            let sub = [0, 1, 2, 3].map(|i| a[i] - b[i]);
            let mut xa = x;
            xa += y;
            let mut xs = x;
            xs -= y;
            if !(same(&x, *a) && same(&(x + y), add) && same(&(x - y), sub) && same(&xa, add) && same(&xs, sub)) {
                ctx.fail(&name, format!("wrong sum, difference or norm: {:?} {:?}", x + y, x - y), json!({}))
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let p = [[5., 1., 2., 4.], [5., 1., 2., -4.], [2., 0., 0., 2.]];
    let ids = [1, -11, 21, 2, 22, 0];
    let mut al = vec![];
    for id in [1, -11, 21] {
        for q in &p[..2] {
            al.push(Op::Add(id, *q))
        }
    }
    al.push(Op::Add(21, p[2]));
    al.push(Op::Weight(1.5));
    al.push(Op::Weight(-2.));
    al.push(Op::Scale(0.5));
    let max = ctx.by(5, 7);
    for len in 0..=max {
        let firsts: Vec<Vec<usize>> = Odometer::pow(al.len(), len.min(2)).collect();
        par_for(&firsts, |f| {
            for rest in Odometer::pow(al.len(), len.saturating_sub(2)) {
                if ctx.stop() {
                    return;
                }
                let ops: Vec<Op> = f.iter().chain(&rest).map(|i| al[*i]).collect();
                if ops.iter().filter(|o| matches!(o, Op::Weight(_))).count() > 3 {
                    continue;
                }
                one(ctx, &ops, &ids)
            }
        });
    }
    ctx.note("max_operations", max);
    for n in [10, 17, 18, 33, 40, 64, 101] {
        for step in [1, 3, 5, 7, 13, n - 1] {
            one(ctx, &many(n, step), &[1, 2, 3, 211, 82, -1000]);
        }
    }
    // many weights, and many particles of one type
    for n in [2usize, 3, 31, 32, 33, 64, 65, 100, 128, 257, 1000, 4099] {
        for step in [1, 7] {
            let mut ops: Vec<Op> = (0..n).map(|i| Op::Weight(0.5 + (i * step % n) as f64 * [1., -0.25][i % 2])).collect();
            one(ctx, &ops, &[1]);
            for (k, i) in (0..n).enumerate() {
                ops.insert((k * 13) % (ops.len() + 1), Op::Add([21, 5, -11][i % if step == 1 { 1 } else { 3 }], [(i * step % n) as f64, 1., -(i as f64), 0.5]))
            }
            one(ctx, &ops, &[1, 21, 5, -11]);
            ops.insert(ops.len() / 2, Op::Scale(2.));
            one(ctx, &ops, &[1, 21, 5, -11]);
        }
    }
    four_vectors(ctx);
    if Event::new().outgoing().len() != 0 {
        ctx.fail("new", "a new event has particles", json!({}))
    }
    ctx.states.store(ctx.ndistinct(), SeqCst);
}
