#[derive(Clone, Debug)]
pub struct KdTree;
#[derive(Clone, Debug)]
pub struct BallTree;
#[derive(Clone, Debug)]
pub struct LinearSearch;
pub mod distance {
    use ndarray::{ArrayView, Dimension};
    pub trait Distance<F>: Clone {
        fn distance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F;
        fn rdistance<D: Dimension>(&self, a: ArrayView<F, D>, b: ArrayView<F, D>) -> F { self.distance(a, b) }
        fn rdist_to_dist(&self, r: F) -> F { r }
        fn dist_to_rdist(&self, d: F) -> F { d }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct L1Dist;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct L2Dist;
    impl Distance<f64> for L1Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 { a.iter().zip(b.iter()).map(|(x, y)| (x - y).abs()).sum() }
    }
    impl Distance<f64> for L2Dist {
        fn distance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 { a.iter().zip(b.iter()).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt() }
        fn rdistance<D: Dimension>(&self, a: ArrayView<f64, D>, b: ArrayView<f64, D>) -> f64 { a.iter().zip(b.iter()).map(|(x, y)| (x - y) * (x - y)).sum::<f64>() }
        fn rdist_to_dist(&self, r: f64) -> f64 { r.sqrt() }
        fn dist_to_rdist(&self, d: f64) -> f64 { d * d }
    }
}
