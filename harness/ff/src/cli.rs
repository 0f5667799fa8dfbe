fn js(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")) }
fn jm(m: &[(String, u32)]) -> String {
    format!("{{{}}}", m.iter().map(|(n, v)| format!("{}:{}", js(n), v)).collect::<Vec<_>>().join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    match a[1].as_str() {
        "list" => for (n, _) in harnesses() { println!("{n}") },
        "run" => {
            let h = harnesses().into_iter().find(|h| h.0 == a[2]).expect("harness").1;
            let p = get("--p", 7) as u32;
            let th = get("--threads", 8) as usize;
            let t0 = Instant::now();
            let st = explore(h, p, th, get("--qlimit", 60), t0 + Duration::from_secs(get("--limit", 300)), get("--maxpaths", 200000) as usize, get("--cross", 0) as usize);
            let mut ck: Vec<_> = st.checks.iter().collect();
            ck.sort();
            println!("{{\"harness\":{},\"p\":{},\"paths\":{},\"infeasible\":{},\"stopped\":{},\"queries\":{},\"solver_ms\":{},\"wall_ms\":{},\"max_vars\":{},\"max_clauses\":{},\"max_nodes\":{},\"obligations\":{},\"trivial\":{},\"crosschecked\":{},\"replayed\":{},\"checks\":{{{}}},\"sample\":{},\"violations\":[{}],\"errors\":[{}]}}",
                js(&a[2]), p, st.paths, st.infeasible, st.stopped, st.queries, st.solver_ms, t0.elapsed().as_millis(), st.max_vars, st.max_clauses, st.max_nodes,
                st.obligations, st.trivial, st.crosschecked, st.replayed,
                ck.iter().map(|(n, v)| format!("{}:[{},{}]", js(n), v.0, v.1)).collect::<Vec<_>>().join(","),
                st.sample.as_ref().map(|m| jm(m)).unwrap_or("null".into()),
                st.violations.iter().map(|(n, m)| format!("{{\"check\":{},\"model\":{}}}", js(n), jm(m))).collect::<Vec<_>>().join(","),
                st.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
        }
        "replay" => {
            // ff replay HARNESS p name=value ...
            let h = harnesses().into_iter().find(|h| h.0 == a[2]).expect("harness").1;
            let mut cx = sym::Cx::new(a[3].parse().unwrap(), false);
            for kv in &a[4..] { let (k, v) = kv.split_once('=').unwrap(); cx.model.insert(k.into(), v.parse().unwrap()); }
            match run_once(h, cx).0 {
                End::Done => println!("held"),
                End::Stop => println!("outside assumptions"),
                End::Fail(n) => { println!("FAILED {n}"); std::process::exit(1) }
                End::Panic(n) => { println!("PANIC {n}"); std::process::exit(1) }
            }
        }
        "int" => std::process::exit(int(&a[2], &a[3..].iter().map(|x| x.parse().unwrap()).collect::<Vec<u64>>())),
        _ => panic!("usage"),
    }
}
