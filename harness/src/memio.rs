//! Complete runs on records in memory
use crate::res::*;
use cres::cres::{CresBuilder, CresError};
use cres::event::{Event, EventBuilder, Weights};
use cres::four_vector::FourVector;
use cres::io::EventRecord;
use cres::traits::*;
use noisy_float::prelude::*;
use particle_id::ParticleID;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rec {
    /// position, weight
    Ev(f64, f64),
    /// no particles; weight
    Empty(f64),
    ReadErr,
    ConvErr,
    ClusterErr,
    /// the converter attaches an id
    BadId,
}

impl Rec {
    pub fn fails(&self) -> bool {
        !matches!(self, Rec::Ev(..) | Rec::Empty(_))
    }
}

/// the weights of the record
pub fn rec_weights(w: f64, i: usize) -> Vec<f64> {
    if crate::MULTI {
        vec![w, 10. + i as f64]
    } else {
        vec![w]
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct MemErr(pub &'static str);

pub type Written = Arc<Mutex<Option<Vec<Vec<f64>>>>>;

pub struct MemIO {
    pub recs: Vec<Rec>,
    pub pos: usize,
    pub written: Written,
    pub fail_write: bool,
}

impl Iterator for MemIO {
    type Item = Result<EventRecord, MemErr>;
    fn next(&mut self) -> Option<Self::Item> {
        point();
        let r = self.recs.get(self.pos)?;
        self.pos += 1;
        Some(match r {
            Rec::ReadErr => Err(MemErr("read")),
            _ => Ok(EventRecord::HepMC(format!("{}", self.pos - 1))),
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.recs.len() - self.pos;
        match self.recs.len() % 3 {
            0 => (0, None),
            1 => (n, Some(n)),
            _ => (n / 2, None),
        }
    }
}

impl UpdateWeights for MemIO {
    type Error = MemErr;
    fn update_all_weights(&mut self, weights: &[Weights]) -> Result<usize, MemErr> {
        *self.written.lock().unwrap() = Some(
            weights
                .iter()
                .map(|w| w.iter().map(|x| f64::from(*x)).collect())
                .collect(),
        );
        if self.fail_write {
            Err(MemErr("write"))
        } else {
            Ok(weights.len())
        }
    }
    fn update_next_weights(&mut self, _: &Weights) -> Result<bool, MemErr> {
        unreachable!()
    }
}

/// another task can go on here
fn point() {
    if mcsched::active() {
        mcsched::yield_now()
    }
}

pub struct MemConv(pub Vec<Rec>);
impl TryConvert<EventRecord, Event> for MemConv {
    type Error = MemErr;
    fn try_convert(&self, r: EventRecord) -> Result<Event, MemErr> {
        point();
        let i: usize = String::try_from(r).unwrap().parse().unwrap();
        let mut b = EventBuilder::new();
        let w = match self.0[i] {
            Rec::ConvErr => return Err(MemErr("convert")),
            Rec::Ev(pos, w) => {
                b.add_outgoing(ParticleID::new(21), FourVector::from([n64(pos.abs()), n64(pos), n64(0.), n64(0.)]));
                w
            }
            Rec::Empty(w) => w,
            _ => {
                b.add_outgoing(ParticleID::new(21), FourVector::from([n64(1.), n64(1.), n64(0.), n64(0.)]));
                1.
            }
        };
        for x in rec_weights(w, i) {
            b.add_weight(n64(x));
        }
        let mut e = b.build();
        if self.0[i] == Rec::BadId {
            e.id = 7
        }
        if self.0[i] == Rec::ClusterErr {
            // tells the clustering to fail
            e.rescale_weights(n64(-777.))
        }
        Ok(e)
    }
}

pub struct MemCluster;
impl Clustering for MemCluster {
    type Error = MemErr;
    fn cluster(&self, ev: Event) -> Result<Event, MemErr> {
        point();
        if weights_of(&ev)[0] == -777. {
            Err(MemErr("cluster"))
        } else {
            Ok(ev)
        }
    }
}

/// stands in for the resampler: the new weight tells which event it is for
pub struct Marker {
    pub reverse: bool,
}
pub fn mark(pos: f64, w: &[f64]) -> Vec<f64> {
    w.iter().enumerate().map(|(k, w)| 1000. * (k + 1) as f64 + 10. * pos + w / 8.).collect()
}
impl Resample for Marker {
    type Error = MemErr;
    fn resample(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, MemErr> {
        if self.reverse {
            e.reverse()
        }
        for e in &e {
            let pos = f64::from(e.outgoing()[0].1[0][1]);
            let new = mark(pos, &weights_of(e));
            for (w, n) in e.weights.write().iter_mut().zip(new) {
                *w = n64(n)
            }
        }
        Ok(e)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RunResult {
    pub result: Result<(), String>,
    pub written: Option<Vec<Vec<f64>>>,
}

pub fn err_name<A: std::fmt::Debug, B: std::fmt::Debug, C: std::fmt::Debug, D: std::fmt::Debug, E: std::fmt::Debug>(
    e: CresError<A, B, C, D, E>,
) -> String {
    match e {
        CresError::IOErr(e) => format!("io {e:?}"),
        CresError::ConversionErr(e) => format!("conversion {e:?}"),
        CresError::ClusterErr(e) => format!("cluster {e:?}"),
        CresError::ResamplingErr(e) => format!("resampling {e:?}"),
        CresError::UnweightErr(e) => format!("unweight {e:?}"),
        CresError::IdErr(e) => format!("id {e:?}"),
    }
}

pub fn run_with<S, U>(recs: &[Rec], resampler: S, unweighter: U, fail_write: bool) -> RunResult
where
    S: Resample,
    U: Unweight,
    S::Error: Send + std::fmt::Debug,
    U::Error: Send + std::fmt::Debug,
{
    let written: Written = Default::default();
    let mut c = CresBuilder {
        event_io: MemIO {
            recs: recs.to_vec(),
            pos: 0,
            written: written.clone(),
            fail_write,
        },
        converter: MemConv(recs.to_vec()),
        clustering: MemCluster,
        resampler,
        unweighter,
    }
    .build();
    let result = c.run().map_err(err_name);
    let written = written.lock().unwrap().clone();
    RunResult { result, written }
}
