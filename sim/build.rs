fn main() {
    // the interposed libc symbols must also be found by dlsym(RTLD_DEFAULT, ..)
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
