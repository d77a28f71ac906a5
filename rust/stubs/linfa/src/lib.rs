//! Stand-in for the parts of linfa which the backend uses.
use ndarray::{Array1, Array2};

#[derive(Clone, Debug, PartialEq)]
pub struct DatasetBase<R, T> {
    pub records: R,
    pub targets: T,
}

impl<R, T> DatasetBase<R, T> {
    pub fn new(records: R, targets: T) -> Self {
        DatasetBase { records, targets }
    }
    pub fn records(&self) -> &R {
        &self.records
    }
    pub fn targets(&self) -> &T {
        &self.targets
    }
}

impl From<Array2<f64>> for DatasetBase<Array2<f64>, Array1<()>> {
    fn from(records: Array2<f64>) -> Self {
        let n = records.nrows();
        DatasetBase { records, targets: Array1::from_vec(vec![(); n]) }
    }
}

#[derive(Debug)]
pub struct Error(pub String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl std::error::Error for Error {}

pub mod traits {
    pub trait Transformer<R, T> {
        fn transform(&self, x: R) -> T;
    }
    pub trait Fit<D> {
        type Object;
        fn fit(&self, dataset: &D) -> Result<Self::Object, super::Error>;
    }
    pub trait Predict<D, T> {
        fn predict(&self, x: D) -> T;
    }
}

pub mod metrics {
    use super::*;

    pub trait SilhouetteScore {
        fn silhouette_score(&self) -> Result<f64, Error>;
    }

    impl SilhouetteScore for DatasetBase<Array2<f64>, Array1<usize>> {
        fn silhouette_score(&self) -> Result<f64, Error> {
            let n = self.records.nrows();
            let label: Vec<usize> = self.targets.to_vec();
            let dist = |i: usize, j: usize| -> f64 {
                self.records.row(i).iter().zip(self.records.row(j).iter()).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
            };
            let mut labels = label.clone();
            labels.sort();
            labels.dedup();
            if labels.len() < 2 {
                return Ok(1.0);
            }
            let mut total = 0.0;
            for i in 0..n {
                let mean = |l: usize| -> Option<f64> {
                    let others: Vec<usize> = (0..n).filter(|j| *j != i && label[*j] == l).collect();
                    if others.is_empty() { None } else { Some(others.iter().map(|j| dist(i, *j)).sum::<f64>() / others.len() as f64) }
                };
                if let Some(a) = mean(label[i]) {
                    let b = labels.iter().filter(|l| **l != label[i]).filter_map(|l| mean(*l)).fold(f64::MAX, f64::min);
                    if a.max(b) > 0.0 {
                        total += (b - a) / a.max(b);
                    }
                }
            }
            Ok(total / n as f64)
        }
    }
}
