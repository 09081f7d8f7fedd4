RUST = True
PROPERTY = 'C25'
NEEDS = 'a loop whose body is itself two rounds of a shorter loop of even length'
BREAKS = 'a tandem array made of a shorter tandem array is reported as primitive'
EDITS = [('features/analysis/patterns/tandem_arrays.rs', 'for length in 2..((array.sub_array.length + 1) / 2 + 1) {', 'for length in 2..((array.sub_array.length + 1) / 2) {')]
DEMO = r'''
use ficus_backend::features::analysis::patterns::tandem_arrays::find_primitive_tandem_arrays;
fn main() {
    let trace: Vec<u64> = vec![1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3];
    let found = find_primitive_tandem_arrays(&vec![trace], 20);
    for a in &found[0] { assert!(*a.get_length() == 2, "{:?}", a); }
    assert!(found[0].len() > 0);
}
'''
