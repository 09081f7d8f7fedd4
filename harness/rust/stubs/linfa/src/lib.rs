use ndarray::{Array1, Array2};
#[derive(Clone, Debug)]
pub struct DatasetBase<R, T> { pub records: R, pub targets: T }
impl<R, T> DatasetBase<R, T> {
    pub fn records(&self) -> &R { &self.records }
    pub fn targets(&self) -> &T { &self.targets }
}
impl From<Array2<f64>> for DatasetBase<Array2<f64>, Array1<()>> {
    fn from(records: Array2<f64>) -> Self { let n = records.nrows(); DatasetBase { records, targets: Array1::from_vec(vec![(); n]) } }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "invalid parameters") } }
impl std::error::Error for Error {}
pub mod traits {
    pub trait Transformer<X, T> { fn transform(&self, x: X) -> T; }
    pub trait Fit<D> { type Object; fn fit(&self, d: &D) -> Result<Self::Object, super::Error>; }
    pub trait Predict<D, T> { fn predict(&self, d: D) -> T; }
}
pub mod metrics {
    use super::*;
    pub trait SilhouetteScore<F> { fn silhouette_score(&self) -> Result<F, Error>; }
    impl SilhouetteScore<f64> for DatasetBase<Array2<f64>, Array1<usize>> {
        fn silhouette_score(&self) -> Result<f64, Error> {
            let n = self.records.nrows();
            let l = self.targets.to_vec();
            let d = |i: usize, j: usize| -> f64 { self.records.row(i).iter().zip(self.records.row(j).iter()).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt() };
            let mut s = 0.0;
            for i in 0..n {
                let mut own = (0.0, 0usize);
                let mut best = f64::INFINITY;
                let mut ks: Vec<usize> = l.clone();
                ks.sort(); ks.dedup();
                for k in ks {
                    let (mut t, mut c) = (0.0, 0);
                    for j in 0..n { if l[j] == k && j != i { t += d(i, j); c += 1; } }
                    if k == l[i] { own = (t, c) } else if c > 0 { best = best.min(t / c as f64) }
                }
                if own.1 == 0 || best.is_infinite() { continue; }
                let a = own.0 / own.1 as f64;
                let m = a.max(best);
                if m > 0.0 { s += (best - a) / m }
            }
            Ok(s / n as f64)
        }
    }
}
