RUST = True
PROPERTY = 'C33'
NEEDS = 'a class that occurs in every trace, not equally often'
BREAKS = 'columns are scaled from zero, not from their least count, so traces seem nearer than they are'
EDITS = [('features/clustering/common.rs', 'let mut min = f64::MAX;', 'let mut min = 0f64;')]
DEMO = r'''
use ficus_backend::features::clustering::common::scale_raw_dataset_min_max;
fn main() {
    let mut v = vec![2.0, 0.0, 3.0, 1.0, 4.0, 1.0];
    scale_raw_dataset_min_max(&mut v, 3, 2);
    assert_eq!(v, vec![0.0, 0.0, 0.5, 1.0, 1.0, 1.0]);
}
'''
