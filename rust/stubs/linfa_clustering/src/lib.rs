//! Stand-in for linfa-clustering: DBSCAN by its definition, and k-means from evenly spread initial centres.
use linfa::{
    traits::{Fit, Predict, Transformer},
    DatasetBase,
};
use linfa_nn::{distance::Distance, KdTree};
use ndarray::{Array1, Array2};

pub struct Dbscan;

pub struct DbscanParams<D> {
    min_points: usize,
    tolerance: f64,
    dist: D,
}

impl Dbscan {
    pub fn params_with<D: Distance<f64>>(min_points: usize, dist: D, _nn: KdTree) -> DbscanParams<D> {
        DbscanParams { min_points, tolerance: 1e-4, dist }
    }
}

impl<D> DbscanParams<D> {
    pub fn tolerance(mut self, tolerance: f64) -> Self {
        self.tolerance = tolerance;
        self
    }
}

#[derive(Debug)]
pub struct DbscanParamsError;

impl std::fmt::Display for DbscanParamsError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "min_points must be greater than 1 and tolerance greater than 0")
    }
}

impl std::error::Error for DbscanParamsError {}

impl<D: Distance<f64>> Transformer<&Array2<f64>, Result<Array1<Option<usize>>, DbscanParamsError>> for DbscanParams<D> {
    fn transform(&self, x: &Array2<f64>) -> Result<Array1<Option<usize>>, DbscanParamsError> {
        if self.min_points <= 1 || self.tolerance <= 0.0 {
            return Err(DbscanParamsError);
        }
        let n = x.nrows();
        let near = |i: usize| -> Vec<usize> { (0..n).filter(|j| self.dist.distance(x.row(i), x.row(*j)) <= self.tolerance).collect() };
        let mut label: Vec<Option<usize>> = vec![None; n];
        let mut next = 0;
        for i in 0..n {
            if label[i].is_some() {
                continue;
            }
            let mut queue = near(i);
            if queue.len() < self.min_points {
                continue;
            }
            label[i] = Some(next);
            while let Some(j) = queue.pop() {
                if label[j].is_none() {
                    label[j] = Some(next);
                    let more = near(j);
                    if more.len() >= self.min_points {
                        queue.extend(more);
                    }
                }
            }
            next += 1;
        }
        Ok(Array1::from_vec(label))
    }
}

pub struct KMeans<F, D> {
    centroids: Vec<Vec<F>>,
    dist: D,
}

pub struct KMeansParams<R, D> {
    n_clusters: usize,
    iterations: u64,
    tolerance: f64,
    dist: D,
    _rng: R,
}

impl<D: Distance<f64>> KMeans<f64, D> {
    pub fn params_with<R>(n_clusters: usize, rng: R, dist: D) -> KMeansParams<R, D> {
        KMeansParams { n_clusters, iterations: 300, tolerance: 1e-4, dist, _rng: rng }
    }
    fn nearest(&self, row: &[f64]) -> usize {
        let row_array = Array2::from_shape_vec((1, row.len()), row.to_vec()).unwrap();
        let mut best = (f64::MAX, 0);
        for (index, centroid) in self.centroids.iter().enumerate() {
            let c = Array2::from_shape_vec((1, centroid.len()), centroid.clone()).unwrap();
            let d = self.dist.distance(row_array.row(0), c.row(0));
            if d < best.0 {
                best = (d, index);
            }
        }
        best.1
    }
}

impl<R, D> KMeansParams<R, D> {
    pub fn max_n_iterations(mut self, iterations: u64) -> Self {
        self.iterations = iterations;
        self
    }
    pub fn tolerance(mut self, tolerance: f64) -> Self {
        self.tolerance = tolerance;
        self
    }
}

impl<R, D: Distance<f64>, T> Fit<DatasetBase<Array2<f64>, T>> for KMeansParams<R, D> {
    type Object = KMeans<f64, D>;

    fn fit(&self, dataset: &DatasetBase<Array2<f64>, T>) -> Result<Self::Object, linfa::Error> {
        let x = dataset.records();
        let n = x.nrows();
        if self.iterations == 0 || self.tolerance <= 0.0 {
            return Err(linfa::Error("the number of iterations and the tolerance must be positive".to_owned()));
        }
        if self.n_clusters == 0 || self.n_clusters > n {
            return Err(linfa::Error("the number of clusters does not fit the number of samples".to_owned()));
        }
        let rows: Vec<Vec<f64>> = (0..n).map(|i| x.row(i).to_vec()).collect();
        let mut model = KMeans {
            centroids: (0..self.n_clusters).map(|k| rows[k * n / self.n_clusters].clone()).collect(),
            dist: self.dist.clone(),
        };
        for _ in 0..self.iterations {
            let labels: Vec<usize> = rows.iter().map(|r| model.nearest(r)).collect();
            let mut moved = 0.0f64;
            for k in 0..self.n_clusters {
                let members: Vec<&Vec<f64>> = rows.iter().zip(&labels).filter(|(_, l)| **l == k).map(|(r, _)| r).collect();
                if members.is_empty() {
                    continue;
                }
                for c in 0..model.centroids[k].len() {
                    let mean = members.iter().map(|r| r[c]).sum::<f64>() / members.len() as f64;
                    moved = moved.max((mean - model.centroids[k][c]).abs());
                    model.centroids[k][c] = mean;
                }
            }
            if moved <= self.tolerance {
                break;
            }
        }
        Ok(model)
    }
}

impl<D: Distance<f64>, T> Predict<DatasetBase<Array2<f64>, T>, DatasetBase<Array2<f64>, Array1<usize>>> for KMeans<f64, D> {
    fn predict(&self, x: DatasetBase<Array2<f64>, T>) -> DatasetBase<Array2<f64>, Array1<usize>> {
        let labels = (0..x.records.nrows()).map(|i| self.nearest(&x.records.row(i).to_vec())).collect();
        DatasetBase::new(x.records, Array1::from_vec(labels))
    }
}
