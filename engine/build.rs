fn main() {
    println!("cargo:rustc-link-search=native=/usr/lib/llvm-18/lib");
    println!("cargo:rustc-link-lib=dylib=LLVM-18");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,/usr/lib/llvm-18/lib");
}
