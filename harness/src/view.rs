//! Sampled constants of a GMiMC / Neptune parameter set. With the hooks they come from the
//! read-only accessors; without them they are read from the (derived) Debug rendering.
use ark_ff::PrimeField;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;

pub struct NeView<F> {
    pub rc: Vec<Vec<F>>,
    pub me: Vec<Vec<F>>,
    /// diagonal of the internal matrix
    pub mu: Vec<F>,
    pub gamma: F,
}

#[cfg(verif_hooks)]
pub fn gm_rc<F: PrimeField>(p: &GmimcParams<F>) -> Vec<F> {
    p.verif_view().3
}
#[cfg(verif_hooks)]
pub fn ne_view<F: PrimeField>(p: &NeptuneParams<F>) -> NeView<F> {
    let (rc, me, mu, gamma) = p.verif_constants();
    NeView {
        rc,
        me,
        mu: mu.into_iter().map(|m| m + F::one()).collect(),
        gamma,
    }
}

#[cfg(not(verif_hooks))]
mod dbg {
    use ark_ff::PrimeField;
    /// Fields of a derived Debug rendering: name and elements, row by row if nested.
    pub struct Field<F> {
        pub name: String,
        pub rows: Vec<Vec<F>>,
        pub nested: bool,
    }
    fn els<F: PrimeField>(s: &str) -> Vec<F> {
        s.split("BigInt([")
            .skip(1)
            .map(|x| {
                let inner = &x[..x.find(']').unwrap()];
                let mut bytes = vec![];
                for w in inner.split(',') {
                    bytes.extend_from_slice(&w.trim().parse::<u64>().unwrap().to_le_bytes());
                }
                F::from_le_bytes_mod_order(&bytes)
            })
            .collect()
    }
    /// The parts of `s` separated by commas outside any bracket.
    fn parts(s: &str) -> Vec<&str> {
        let (mut depth, mut from, mut out) = (0i32, 0, vec![]);
        for (j, ch) in s.char_indices() {
            match ch {
                '[' | '(' | '{' => depth += 1,
                ']' | ')' | '}' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(s[from..j].trim());
                    from = j + 1;
                }
                _ => {}
            }
        }
        out.push(s[from..].trim());
        out
    }
    pub fn fields<F: PrimeField>(s: &str) -> Vec<Field<F>> {
        let body = &s[s.find('{').unwrap() + 1..s.rfind('}').unwrap()];
        parts(body)
            .into_iter()
            .filter_map(|p| {
                let (name, v) = p.split_once(": ")?;
                let v = v.trim();
                let inner = v.strip_prefix('[')?.strip_suffix(']')?;
                let nested = inner.trim_start().starts_with('[');
                let rows = if nested { parts(inner).into_iter().map(els).collect() } else { vec![els(inner)] };
                Some(Field { name: name.trim().to_string(), rows, nested })
            })
            .collect()
    }
    /// The field of that name, or the first that fits if the name is gone.
    pub fn pick<F: PrimeField>(fs: &[Field<F>], name: &str, fits: impl Fn(&Field<F>) -> bool) -> Vec<Vec<F>> {
        let f = fs.iter().find(|f| f.name == name && fits(f)).or_else(|| fs.iter().find(|f| fits(f)));
        match f {
            Some(f) => f.rows.clone(),
            None => {
                // nothing to read the constants from: no answer rather than a wrong one
                println!("UNREADABLE {}", name);
                std::process::exit(3);
            }
        }
    }
}
#[cfg(not(verif_hooks))]
pub fn gm_rc<F: PrimeField>(p: &GmimcParams<F>) -> Vec<F> {
    dbg::pick(&dbg::fields::<F>(&format!("{:?}", p)), "round_constants", |f| !f.nested && f.rows[0].len() == p.get_rounds()).concat()
}
#[cfg(not(verif_hooks))]
pub fn ne_view<F: PrimeField>(p: &NeptuneParams<F>) -> NeView<F> {
    let fs = dbg::fields::<F>(&format!("{:?}", p));
    // even and odd positions do not mix in the external matrix
    let split = |f: &dbg::Field<F>| {
        f.nested
            && f.rows.len() % 2 == 0
            && f.rows.iter().enumerate().all(|(i, r)| r.len() == f.rows.len() && r.iter().enumerate().all(|(j, x)| (i + j) % 2 == 0 || x.is_zero()))
    };
    // by name if the name is still there, else by its form
    let me_at = fs.iter().position(|f| f.name == "m_e" && f.nested).or_else(|| fs.iter().rposition(|f| f.name != "round_constants" && split(f)));
    let Some(me_at) = me_at else {
        println!("UNREADABLE m_e");
        std::process::exit(3);
    };
    let me = fs[me_at].rows.clone();
    let t = me.len();
    let rc = fs
        .iter()
        .find(|f| f.name == "round_constants")
        .or_else(|| fs.iter().enumerate().find(|(i, f)| *i != me_at && f.nested && f.rows[0].len() == t).map(|(_, f)| f));
    let mu: Vec<F> = dbg::pick(&fs, "mu", |f| !f.nested && f.rows[0].len() == t).concat();
    NeView {
        rc: rc.filter(|f| f.nested).map(|f| f.rows.clone()).unwrap_or_default(),
        me,
        mu: mu.into_iter().map(|m| m + F::one()).collect(),
        gamma: dbg::pick(&fs, "abc", |f| !f.nested && f.rows[0].len() == 3 && f.rows[0][0].is_one()).concat()[2],
    }
}

// (t, d, full rounds, partial rounds); zeros where unknown
fn num_after(s: &str, name: &str) -> usize {
    let k = format!(" {}: ", name);
    match s.find(&k) {
        Some(i) => s[i + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0),
        None => 0,
    }
}
fn dbg_shape(s: &str) -> [usize; 4] {
    let (b, e) = (num_after(s, "rounds_f_beginning"), num_after(s, "rounds_f_end"));
    [num_after(s, "t"), num_after(s, "d"), b + e, num_after(s, "rounds_p")]
}
pub fn p2_shape<F: PrimeField>(p: &zkhash::poseidon2::poseidon2_params::Poseidon2Params<F>) -> [usize; 4] {
    dbg_shape(&format!("{:?}", p))
}
pub fn po_shape<F: PrimeField>(p: &zkhash::poseidon::poseidon_params::PoseidonParams<F>) -> [usize; 4] {
    dbg_shape(&format!("{:?}", p))
}
#[cfg(verif_hooks)]
pub fn gm_shape<F: PrimeField>(p: &GmimcParams<F>) -> [usize; 4] {
    let (t, d, r, _) = p.verif_view();
    [t, d, 0, r]
}
#[cfg(verif_hooks)]
pub fn ne_shape<F: PrimeField>(p: &NeptuneParams<F>) -> [usize; 4] {
    let (t, d, f, r) = p.verif_shape();
    [t, d, f, r]
}
#[cfg(not(verif_hooks))]
pub fn gm_shape<F: PrimeField>(p: &GmimcParams<F>) -> [usize; 4] {
    let s = format!("{:?}", p);
    [num_after(&s, "t"), num_after(&s, "d"), 0, num_after(&s, "rounds")]
}
#[cfg(not(verif_hooks))]
pub fn ne_shape<F: PrimeField>(p: &NeptuneParams<F>) -> [usize; 4] {
    dbg_shape(&format!("{:?}", p))
}
