pub use warp::body_of_hyper::Body;
