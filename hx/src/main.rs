fn main() {
    #[cfg(not(kani))]
    {
        // verification conditions over the reals: hx vc MODULE
        #[cfg(feature = "c11")]
        if std::env::args().nth(1).as_deref() == Some("vc") { return hx::c11::real::all() }
        hx::shim::native::main(&hx::all(), &hx::executed());
    }
}
