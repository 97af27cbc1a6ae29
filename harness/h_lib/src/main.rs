use hlib::*;
fn main() {
    let mut g = G::default();
    g.add(T::ex("a"), "p", T::int(1));
    g.add(T::b("x"), "p", T::lang("hi", "en"));
    let mut ts = [std::time::Duration::ZERO; 4];
    for i in 0..200 {
        let t = std::time::Instant::now();
        let mut r = rudof();
        ts[0] += t.elapsed(); let t = std::time::Instant::now();
        load_nt(&mut r, &g).unwrap();
        ts[1] += t.elapsed(); let t = std::time::Instant::now();
        load_shex(&mut r, "prefix : <http://e.org/> :S { :p . ; ^:q @:T* } :T { :p [1 2 3]? }", rudof_lib::formats::ShExFormat::ShExC).unwrap();
        ts[2] += t.elapsed(); let t = std::time::Instant::now();
        let v = shex_run(&mut r, "<http://e.org/a>@<http://e.org/S>,_:x@<http://e.org/S>,_:x@<http://e.org/T>");
        ts[3] += t.elapsed();
        if i == 0 { println!("{v:?}"); }
    }
    println!("{:?} per 200", ts);
}
