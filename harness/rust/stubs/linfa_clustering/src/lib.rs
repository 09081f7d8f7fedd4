//! DBSCAN and k-means by their definitions.
use linfa::traits::{Fit, Predict, Transformer};
use linfa::{DatasetBase, Error};
use linfa_nn::distance::Distance;
use ndarray::{view, Array1, Array2};
use rand::Rng;
pub struct Dbscan;
pub struct DbscanParams<D, N> { min: usize, dist: D, _nn: N, tol: f64 }
impl Dbscan {
    pub fn params_with<D: Distance<f64>, N>(min_points: usize, dist: D, nn: N) -> DbscanParams<D, N> { DbscanParams { min: min_points, dist, _nn: nn, tol: 1e-4 } }
}
impl<D: Distance<f64>, N> DbscanParams<D, N> {
    pub fn tolerance(mut self, t: f64) -> Self { self.tol = t; self }
}
impl<D: Distance<f64>, N> Transformer<&Array2<f64>, Result<Array1<Option<usize>>, Error>> for DbscanParams<D, N> {
    fn transform(&self, x: &Array2<f64>) -> Result<Array1<Option<usize>>, Error> {
        if self.tol <= 0.0 || self.min < 2 { return Err(Error); }
        let n = x.nrows();
        let near = |i: usize| -> Vec<usize> { (0..n).filter(|j| self.dist.rdist_to_dist(self.dist.rdistance(x.row(i), x.row(*j))) <= self.tol).collect() };
        let mut l: Vec<Option<usize>> = vec![None; n];
        let mut k = 0;
        for i in 0..n {
            if l[i].is_some() { continue; }
            let ns = near(i);
            if ns.len() < self.min { continue; }
            let mut todo = ns;
            l[i] = Some(k);
            while let Some(j) = todo.pop() {
                if l[j].is_some() { continue; }
                l[j] = Some(k);
                let m = near(j);
                if m.len() >= self.min { todo.extend(m); }
            }
            k += 1;
        }
        Ok(Array1::from_vec(l))
    }
}
#[derive(Clone, Debug)]
pub struct KMeans<F, D> { c: Vec<Vec<F>>, dist: D }
pub struct KMeansParams<R, D> { k: usize, rng: std::cell::RefCell<R>, dist: D, n: u64 }
impl KMeans<f64, ()> {
    pub fn params_with<R: Rng, D: Distance<f64>>(k: usize, rng: R, dist: D) -> KMeansParams<R, D> { KMeansParams { k, rng: std::cell::RefCell::new(rng), dist, n: 300 } }
}
impl<R: Rng, D: Distance<f64>> KMeansParams<R, D> {
    pub fn max_n_iterations(mut self, n: u64) -> Self { self.n = n; self }
    pub fn tolerance(self, _t: f64) -> Self { self }
}
fn closest<D: Distance<f64>>(d: &D, c: &Vec<Vec<f64>>, x: &Array2<f64>, i: usize) -> usize {
    let mut b = (f64::INFINITY, 0);
    for (k, m) in c.iter().enumerate() { let v = d.rdistance(x.row(i), view(m)); if v < b.0 { b = (v, k) } }
    b.1
}
impl<R: Rng, D: Distance<f64>> Fit<DatasetBase<Array2<f64>, Array1<()>>> for KMeansParams<R, D> {
    type Object = KMeans<f64, D>;
    fn fit(&self, d: &DatasetBase<Array2<f64>, Array1<()>>) -> Result<KMeans<f64, D>, Error> {
        let x = d.records();
        let n = x.nrows();
        if self.k == 0 || n == 0 || self.k > n { return Err(Error); }
        let mut idx: Vec<usize> = (0..n).collect();
        let mut c = vec![];
        for _ in 0..self.k { let j = self.rng.borrow_mut().gen_range(0..idx.len()); c.push(x.row(idx.remove(j)).iter().map(|v| *v).collect::<Vec<f64>>()); }
        for _ in 0..self.n {
            let l: Vec<usize> = (0..n).map(|i| closest(&self.dist, &c, x, i)).collect();
            let mut moved = false;
            for k in 0..self.k {
                let ms: Vec<usize> = (0..n).filter(|i| l[*i] == k).collect();
                if ms.is_empty() { continue; }
                let m: Vec<f64> = (0..x.ncols()).map(|j| ms.iter().map(|i| *x.get([*i, j]).unwrap()).sum::<f64>() / ms.len() as f64).collect();
                if m != c[k] { c[k] = m; moved = true; }
            }
            if !moved { break; }
        }
        Ok(KMeans { c, dist: self.dist.clone() })
    }
}
impl<D: Distance<f64>> Predict<DatasetBase<Array2<f64>, Array1<()>>, DatasetBase<Array2<f64>, Array1<usize>>> for KMeans<f64, D> {
    fn predict(&self, d: DatasetBase<Array2<f64>, Array1<()>>) -> DatasetBase<Array2<f64>, Array1<usize>> {
        let t = (0..d.records.nrows()).map(|i| closest(&self.dist, &self.c, &d.records, i)).collect::<Vec<usize>>();
        DatasetBase { records: d.records, targets: Array1::from_vec(t) }
    }
}
