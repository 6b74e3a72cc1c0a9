//! Compiles only if transforms may be sent to and shared between threads.
use rustdht::scalar::*;
use rustdht::Dht;
use std::sync::Arc;

fn shareable<X: Send + Sync + ?Sized>() {}

fn main() {
    shareable::<dyn Dht<f32>>();
    shareable::<Arc<dyn Dht<f32>>>();
    shareable::<Arc<dyn Dht<f64>>>();
    shareable::<DhtNaive<f64>>();
    shareable::<MixedRadix<f64>>();
    shareable::<RadersAlgorithm<f64>>();
    shareable::<SplitRadix<f64>>();
    shareable::<Radix4<f64>>();
    // and used that way
    let d: Arc<dyn Dht<f64>> = Arc::new(DhtNaive::new(3));
    let e = d.clone();
    std::thread::spawn(move || e.process(&mut [1.0, 2.0, 3.0])).join().unwrap();
    std::thread::scope(|s| {
        s.spawn(|| d.process(&mut [1.0, 2.0, 3.0]));
    });
}
