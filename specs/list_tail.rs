/*@@GENERATED@@*/

} // verus!
fn main() {}
