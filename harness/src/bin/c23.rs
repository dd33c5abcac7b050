//! C23: mixed-radix indexing is a reusable bijection; count quantiser.
use demixer::util::indexer::*;
use demixer::util::quantizers::OccurrenceCountQuantizer as Q;
use mc::*;

/// All tuples of one dimension vector, `rounds` passes in different orders
/// on one indexer object.
fn bijection<I: Indexer>(dims: &[usize], rounds: usize, l: &mut Local) -> CaseResult {
    let mut ix = I::new(dims.to_vec());
    let size: usize = dims.iter().product();
    ensure!(ix.get_array_size() == size, "size of {:?} is {}", dims, ix.get_array_size());
    let mut map = vec![usize::MAX; size];
    for r in 0..rounds {
        let mut hit = vec![false; size];
        for t in 0..size {
            // order of visits: forward, backward, strided by a unit
            let t = match r { 0 => t, 1 => size - 1 - t, _ => (t * stride(size) + 1) % size };
            let mut x = t;
            let tuple: Vec<usize> = dims.iter().map(|&d| { let v = x % d; x /= d; v }).collect();
            for &v in &tuple { ix.with_sub_index(v); }
            let i = ix.get_array_index_and_reset();
            ensure!(i < size, "{:?} of {:?} gives {} of {}", tuple, dims, i, size);
            ensure!(!hit[i], "{:?} of {:?} gives {} like another tuple", tuple, dims, i);
            hit[i] = true;
            ensure!(map[t] == usize::MAX || map[t] == i, "{:?} of {:?} gives {} and earlier {}", tuple, dims, i, map[t]);
            map[t] = i;
            l.transitions += 1;
        }
        ensure!(hit.iter().all(|&h| h), "{:?}: not every index is reached", dims);
        ensure!(ix.get_array_size() == size, "size of {:?} after use", dims);
    }
    l.states += size as u64;
    l.outcome(size as u64);
    Ok(())
}

fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
fn stride(n: usize) -> usize { let mut s = n / 2 + 1; while gcd(s, n) != 1 { s += 1; } s }

fn by_dims(dims: &[usize], rounds: usize, l: &mut Local) -> CaseResult {
    match dims.len() {
        1 => bijection::<Indexer1>(dims, rounds, l), 2 => bijection::<Indexer2>(dims, rounds, l),
        3 => bijection::<Indexer3>(dims, rounds, l), 4 => bijection::<Indexer4>(dims, rounds, l),
        5 => bijection::<Indexer5>(dims, rounds, l), _ => bijection::<Indexer6>(dims, rounds, l),
    }
}

/// Operation words: op < K supplies that sub-index, op == K asks for the index.
fn protocol<I: Indexer>(dims: &[usize], w: &[u64], top: u64, l: &mut Local) -> CaseResult {
    let mut ix = I::new(dims.to_vec());
    let mut given: Vec<usize> = vec![];
    for &op in w {
        let ok = if op < top { given.len() < dims.len() && (op as usize) < dims[given.len()] } else { given.len() == dims.len() };
        let mut index = 0;
        let refused = {
            let (ix, index) = (&mut ix, &mut index);
            refuses(move || if op < top { ix.with_sub_index(op as usize); } else { *index = ix.get_array_index_and_reset(); })
        };
        l.transitions += 1;
        ensure!(refused != ok, "dims {:?} given {:?} operation {}: {}", dims, given, op, if refused { "refused" } else { "accepted" });
        if !ok { break; }
        if op < top { given.push(op as usize); } else {
            let mut fresh = I::new(dims.to_vec());
            for &v in &given { fresh.with_sub_index(v); }
            let f = fresh.get_array_index_and_reset();
            ensure!(f == index, "{:?} of {:?}: {} after earlier use, {} fresh", given, dims, index, f);
            given.clear();
        }
        l.states += 1;
    }
    l.traces += 1;
    Ok(())
}

fn main() {
    let mut c = Check::new("C23", "model_checking");
    let thorough = c.thorough();
    for n in 1..=6usize {
        let max = if thorough { [3000, 70, 16, 9, 6, 5][n - 1] } else { [1500, 45, 11, 6, 5, 4][n - 1] } as u64;
        c.stage(&format!("all_dims_{}", n), &format!("{} dimensions: every dimension vector with sizes 1..={}, every tuple, three passes in different orders on one indexer", n, max), max.pow(n as u32), move |_, case, l| {
            let dims: Vec<usize> = digits(case, max, n).iter().map(|&d| d as usize + 1).collect();
            l.describe(|| format!("dims {:?}", dims));
            by_dims(&dims, 3, l)?;
            l.traces += 1;
            Ok(())
        });
    }
    let real: Vec<Vec<usize>> = vec![vec![255, 256, 7], vec![31, 3, 33, 2, 255], vec![20, 3, 8, 255], vec![65536, 3], vec![1, 1, 1, 1, 1, 100_000], vec![2, 1000, 2, 5, 3, 7], vec![1 << 20], vec![1, 70_000]];
    c.stage("large_dims", "large and lopsided dimension vectors, every tuple, three passes", real.len() as u64, move |_, case, l| {
        let dims = &real[case as usize];
        l.describe(|| format!("dims {:?}", dims));
        by_dims(dims, 3, l)?;
        l.traces += 1;
        Ok(())
    });
    let huge: Vec<Vec<usize>> = vec![vec![1 << 32, 1 << 31], vec![1 << 21, 1 << 21, 1 << 21], vec![usize::MAX], vec![3, usize::MAX / 3], vec![1 << 16, 1 << 16, 1 << 16, 1 << 15]];
    c.stage("huge_dims", "sizes near the word size: corner tuples reach 0 and size - 1 exactly; products that do not fit are refused", huge.len() as u64, move |_, case, l| {
        let dims = &huge[case as usize];
        l.describe(|| format!("dims {:?}", dims));
        fn corners<I: Indexer>(dims: &[usize], l: &mut Local) -> CaseResult {
            let size: usize = dims.iter().product();
            let mut ix = I::new(dims.to_vec());
            ensure!(ix.get_array_size() == size, "size {}", ix.get_array_size());
            for v in dims { ix.with_sub_index(v - 1); }
            let top = ix.get_array_index_and_reset();
            for _ in dims { ix.with_sub_index(0); }
            let bot = ix.get_array_index_and_reset();
            ensure!(top.max(bot) == size - 1 && top.min(bot) == 0, "corners {} and {}", bot, top);
            let mut over = dims.to_vec();
            over[0] = usize::MAX; if over.len() == 1 { return Ok(()); }
            ensure!(refuses(move || { I::new(over).get_array_size(); }), "overflowing size accepted");
            l.transitions += 3;
            Ok(())
        }
        match dims.len() { 1 => corners::<Indexer1>(dims, l)?, 2 => corners::<Indexer2>(dims, l)?, 3 => corners::<Indexer3>(dims, l)?, _ => corners::<Indexer4>(dims, l)? };
        l.states += 1; l.traces += 1;
        Ok(())
    });
    for n in 1..=6usize {
        let sets: Vec<Vec<usize>> = vec![vec![2, 3, 1, 2, 3, 2], vec![1, 2, 2, 3, 1, 3], vec![3, 1, 2, 1, 2, 2]];
        let depth = c.pick([9u32, 9, 9, 9, 8, 8], [12, 12, 12, 11, 11, 11])[n - 1];
        let depth = depth.min(11);
        let words = 4u64.pow(depth);
        c.stage(&format!("protocol_{}", n), &format!("{} dimensions: all {} operation words of depth {} over sub-indices 0..=2 and the index request, 3 dimension vectors", n, words, depth), words * 3, move |_, case, l| {
            let dims = &sets[(case % 3) as usize][..n];
            let w: Vec<u64> = digits(case / 3, 4, depth as usize).iter().map(|&d| d as u64).collect();
            l.describe(|| format!("dims {:?} ops {:?}", dims, w));
            match n { 1 => protocol::<Indexer1>(dims, &w, 3, l), 2 => protocol::<Indexer2>(dims, &w, 3, l), 3 => protocol::<Indexer3>(dims, &w, 3, l),
                4 => protocol::<Indexer4>(dims, &w, 3, l), 5 => protocol::<Indexer5>(dims, &w, 3, l), _ => protocol::<Indexer6>(dims, &w, 3, l) }
        });
    }
    c.stage("wrong_dimension_count", "constructing with any other number of dimensions is refused", 6 * 8, |_, case, l| {
        let (n, k) = ((case % 6) as usize + 1, (case / 6) as usize);
        l.describe(|| format!("Indexer{} with {} dimensions", n, k));
        let refused = refuses(move || { let d = vec![2; k]; match n { 1 => { Indexer1::new(d); } 2 => { Indexer2::new(d); } 3 => { Indexer3::new(d); } 4 => { Indexer4::new(d); } 5 => { Indexer5::new(d); } _ => { Indexer6::new(d); } } });
        ensure!(refused == (n != k), "Indexer{} with {} dimensions: refused {}", n, k, refused);
        l.states += 1; l.transitions += 1; l.traces += 1;
        Ok(())
    });
    c.stage("quantizer", "all 65536 counts: non-decreasing, gap-free from 0, maximum declared and reached, equal counts share a class only while their ratio stays below two", 1, |_, _, l| {
        let q: Vec<usize> = (0..=65535u32).map(|i| Q::quantize(i as u16)).collect();
        l.describe(|| format!("max {}", Q::max_output()));
        ensure!(q[0] == 0, "zero gives {}", q[0]);
        let mut first = 0usize;
        for i in 1..65536usize {
            ensure!(q[i] == q[i - 1] || q[i] == q[i - 1] + 1, "{} gives {}, {} gives {}", i - 1, q[i - 1], i, q[i]);
            if q[i] != q[i - 1] { first = i; }
            ensure!(first == 0 || i < 2 * first || first == i, "class {} spans {}..{}", q[i], first, i);
            ensure!(q[i] <= Q::max_output(), "{} gives {} above the declared maximum {}", i, q[i], Q::max_output());
            l.transitions += 1;
        }
        ensure!(q[1] == 1 && q[65535] == Q::max_output(), "ends {} {}", q[1], q[65535]);
        // only the top class reaches the maximum
        ensure!(q[32767] < Q::max_output(), "maximum reached at half the range");
        l.states += 65536; l.traces += 1;
        l.outcome(Q::max_output() as u64);
        Ok(())
    });
    c.finish()
}
