fn main() {
    #[cfg(not(kani))]
    {
        hxe::pgstub::init();
        hxe::shim::native::main(&hxe::all(), &hxe::executed());
    }
}
