//! Stand-in for the parts of linfa-nn which the backend uses.
#[derive(Clone, Debug)]
pub struct KdTree;

pub mod distance {
    use ndarray::{ArrayView, Dimension};

    pub trait Distance<F>: Clone + Send + Sync + Unpin {
        fn distance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F;
        fn rdistance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F {
            self.distance(a, b)
        }
        fn rdist_to_dist(&self, rdist: F) -> F {
            rdist
        }
        fn dist_to_rdist(&self, dist: F) -> F {
            dist
        }
    }

    #[derive(Clone, Debug)]
    pub struct L1Dist;

    impl Distance<f64> for L1Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 {
            a.iter().zip(b.iter()).map(|(a, b)| (a - b).abs()).sum()
        }
    }

    #[derive(Clone, Debug)]
    pub struct L2Dist;

    impl Distance<f64> for L2Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 {
            a.iter().zip(b.iter()).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()
        }
    }
}
