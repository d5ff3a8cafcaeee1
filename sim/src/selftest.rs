//! Checks of the simulator itself: the seam must be in control.
use crate::exec::*;
use crate::plan::*;
use crate::world::World;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher};
use std::io::{Read, Write};

type Probe = (u64, Vec<u8>, i64, String, bool);

fn probe() -> Probe {
    let h = std::collections::hash_map::RandomState::new().build_hasher().finish();
    let mut m = HashMap::new();
    for i in 0..50 {
        m.insert(i, i);
    }
    let order: Vec<u8> = m.keys().map(|k| *k as u8).collect();
    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as i64);
    std::fs::create_dir_all("sub/dir").unwrap();
    {
        let mut f = std::fs::File::create("sub/dir/file").unwrap();
        f.write_all(b"hello").unwrap();
        f.sync_all().unwrap();
    }
    std::fs::rename("sub/dir/file", "sub/f2").unwrap();
    let mut s = String::new();
    std::fs::File::open("sub/f2").unwrap().read_to_string(&mut s).unwrap();
    // directories
    std::fs::create_dir_all("tree/a/b").unwrap();
    for n in ["tree/x", "tree/y", "tree/a/z", "tree/a/b/w"] {
        std::fs::write(n, n).unwrap();
    }
    let names: Vec<String> = std::fs::read_dir("tree").unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    for n in &names {
        s.push_str(n);
    }
    std::fs::rename("tree/a", "tree/c").unwrap();
    assert_eq!(std::fs::read_to_string("tree/c/b/w").unwrap(), "tree/a/b/w");
    assert!(std::fs::remove_dir("tree/c").is_err());
    assert_eq!(std::fs::canonicalize("tree/../tree/c").unwrap().to_str(), Some("/sim/tree/c"));
    std::fs::remove_dir_all("tree/c").unwrap();
    assert!(!std::path::Path::new("tree/c").exists() && std::path::Path::new("tree/x").exists());
    let mut p = std::fs::metadata("tree/x").unwrap().permissions();
    p.set_readonly(true);
    std::fs::set_permissions("tree/x", p).unwrap();
    assert!(std::fs::write("tree/x", "no").is_err() && std::fs::read("tree/x").is_ok());
    std::fs::remove_file("tree/y").unwrap();
    std::fs::remove_file("tree/x").unwrap();
    std::fs::remove_dir("tree").unwrap();
    // threads
    let sum = std::sync::Mutex::new(0);
    let (tx, rx) = std::sync::mpsc::channel();
    let mut turns = vec![];
    std::thread::scope(|sc| {
        for i in 0..5u8 {
            let (tx, sum) = (tx.clone(), &sum);
            sc.spawn(move || {
                for _ in 0..20 {
                    std::fs::write(format!("t{}", i), [i]).unwrap();
                    *sum.lock().unwrap() += 1;
                    tx.send(i).unwrap();
                }
            });
        }
        for _ in 0..100 {
            turns.push(rx.recv().unwrap());
        }
    });
    assert_eq!(*sum.lock().unwrap(), 100);
    assert_eq!(std::fs::read("t4").unwrap(), [4]);
    assert!(rx.recv_timeout(std::time::Duration::from_secs(3600)).is_err());
    let n = std::thread::spawn(|| std::thread::available_parallelism().unwrap().get()).join().unwrap();
    assert!(std::thread::spawn(|| panic!("of a thread")).join().is_err());
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(1)); // and never ends
    });
    let mut order = order;
    order.extend(turns);
    order.push(n as u8);
    let net = std::net::TcpStream::connect("127.0.0.1:1").is_ok();
    // names come from the environment, and who waits spends simulated time
    let start = std::time::Instant::now();
    let mut named = std::net::TcpStream::connect("nowhere.example:81").unwrap();
    named.set_read_timeout(Some(std::time::Duration::from_secs(5000))).unwrap();
    let e = std::io::Read::read(&mut named, &mut [0; 4]).unwrap_err();
    assert_eq!(e.kind(), std::io::ErrorKind::WouldBlock);
    assert!(start.elapsed().as_secs() >= 5000);
    named.set_nonblocking(true).unwrap();
    assert!(std::io::Read::read(&mut named, &mut [0; 4]).is_err());
    let _ = std::net::TcpStream::connect_timeout(&"10.0.0.1:82".parse().unwrap(), std::time::Duration::from_millis(100));
    (h, order, t, s, net)
}

/// Is every source of nondeterminism simulated?
pub fn seam() -> Result<(), String> {
    install_hook();
    let run = |seed: u64| {
        let env = Env { hash_seed: seed, hosts: vec!["10.0.0.1".into()], net: vec![crate::plan::NetPlan { slow: 60_000, ..Default::default() }], ..Default::default() };
        execute::<Probe>(World::new(&env), None, vec![Box::new(probe)]).ok_or("ran away".to_string())
    };
    let (a, b, c) = (run(1)?, run(1)?, run(2)?);
    let (x, y, z) = (&a.outs[0], &b.outs[0], &c.outs[0]);
    if x != y {
        return Err(format!("two runs of one seed differ: {:?} {:?}", x, y));
    }
    if x.0 == z.0 || x.1 == z.1 {
        return Err("hash keys do not come from the seed".into());
    }
    let order = |s: &str| {
        let mut v: Vec<char> = s.strip_prefix("hello")?.chars().collect();
        v.sort();
        Some(v.into_iter().collect::<String>())
    };
    if order(&x.3).as_deref() != Some("axy") || a.world.file("sub/f2").map(|f| f.as_slice()) != Some(b"hello") {
        return Err("files are not simulated".into());
    }
    if !x.4 || a.world.conns.len() != 3 || a.world.conns[1].addr != "10.0.0.1:81" {
        return Err("the network is not simulated".into());
    }
    if (x.2 - 1_600_000_000_000_000_000).abs() > 1_000_000_000_000 {
        return Err(format!("the clock is not simulated: {}", x.2));
    }
    if std::path::Path::new("/sim").exists() || std::path::Path::new("sub/f2").exists() {
        return Err("a simulated file reached the real file system".into());
    }
    if a.world.open_files() != 0 {
        return Err("descriptors are left open".into());
    }
    Ok(())
}

pub fn run(_a: &[&str]) -> i32 {
    match seam() {
        Ok(()) => {
            println!("seam: ok");
            0
        }
        Err(e) => {
            println!("seam: {}", e);
            1
        }
    }
}
