fn main() {
    cv_sfm::checks::main()
}
