fn main() {
    println!("cargo:rustc-cfg=askama_verif");
}
