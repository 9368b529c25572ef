@__rust_no_alloc_shim_is_unstable = global i8 0, align 1
@_RNvCsk0jrCTlCtzA_7___rustc39___rust_alloc_error_handler_should_panic = global i8 0, align 1
@environ = global ptr null, align 8
