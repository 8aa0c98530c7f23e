//! Stand-in for the `affinity` crate: under the verification harness all pool threads are simulated
//! on one OS thread, so there is nothing to pin.
type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;
pub fn set_thread_affinity<B: AsRef<[usize]>>(_core_ids: B) -> Result<()> {
    Ok(())
}
pub fn get_thread_affinity() -> Result<Vec<usize>> {
    Ok((0..256).collect())
}
pub fn get_core_num() -> usize {
    256
}
