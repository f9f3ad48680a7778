//! The contract database and the unit files (plain text, line oriented).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Entry {
    pub key: String,
    pub file: Option<String>,
    pub ret: String,
    pub contract: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub maps: Vec<(String, String)>,
    /// known findings: (id, the defective text, the right text)
    pub known: Vec<(String, String, String)>,
    pub impl_extra: String,
    /// text printed at top level next to the item (the spec side of a `From` impl, for instance)
    pub with: String,
    pub kinds: Option<Vec<String>>,
    pub inherent: bool,
    pub auto_method: bool,
    pub noauto: bool,
    pub rename: Option<String>,
    /// the unit (types and prelude) it is verified in, base unless given
    pub unit: Option<String>,
    /// contracts to pull in beyond those found by name
    pub need: Vec<String>,
    pub sigmaps: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Db {
    entries: BTreeMap<String, Entry>,
}

enum Sec {
    None,
    Contract,
    Attrs,
    Loop(usize),
    At(usize),
    ImplExtra,
    With,
}

impl Db {
    pub fn load(dir: &str) -> Result<Db, String> {
        let mut db = Db::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.map(|e| e.unwrap().path()).collect();
        files.sort();
        for f in files {
            if f.extension().and_then(|e| e.to_str()) != Some("vx") {
                continue;
            }
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let mut cur: Option<Entry> = None;
            let mut sec = Sec::None;
            for (ln, line) in text.lines().enumerate() {
                let err = |m: &str| format!("{}:{}: {m}", f.display(), ln + 1);
                if let Some(d) = line.strip_prefix('@') {
                    let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
                    let rest = rest.trim();
                    if word == "fn" {
                        if cur.is_some() {
                            return Err(err("missing @end"));
                        }
                        let mut e = Entry { ret: "r".into(), ..Default::default() };
                        let (k, opts) = match rest.find(" [") {
                            Some(i) => (&rest[..i], rest[i + 2..].trim_end_matches(']')),
                            None => (rest, ""),
                        };
                        e.key = k.trim().to_string();
                        for o in opts.split(',').map(|o| o.trim()).filter(|o| !o.is_empty()) {
                            if let Some(v) = o.strip_prefix("file=") {
                                e.file = Some(v.to_string());
                            } else if o == "inherent" {
                                e.inherent = true;
                            } else if o == "auto" {
                                e.auto_method = true;
                            } else if let Some(v) = o.strip_prefix("rename=") {
                                e.rename = Some(v.to_string());
                            } else if let Some(v) = o.strip_prefix("unit=") {
                                e.unit = Some(v.to_string());
                            } else if o == "noauto" {
                                e.noauto = true;
                            } else {
                                return Err(err("bad option"));
                            }
                        }
                        cur = Some(e);
                        sec = Sec::None;
                        continue;
                    }
                    let e = cur.as_mut().ok_or_else(|| err("directive outside @fn"))?;
                    match word {
                        "need" => e.need.push(rest.to_string()),
                        "ret" => e.ret = rest.to_string(),
                        "contract" => sec = Sec::Contract,
                        "attrs" => sec = Sec::Attrs,
                        "impl_extra" => sec = Sec::ImplExtra,
                        "with" => sec = Sec::With,
                        "loop" => {
                            let k: usize = rest.parse().map_err(|_| err("bad loop"))?;
                            e.loops.entry(k).or_default();
                            sec = Sec::Loop(k);
                        }
                        "at" => {
                            e.at.push((rest.to_string(), String::new()));
                            sec = Sec::At(e.at.len() - 1);
                        }
                        "kinds" => {
                            e.kinds = Some(rest.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect())
                        }
                        "map" | "sigmap" => {
                            let (x, y) = rest.split_once("=>").ok_or_else(|| err("bad map"))?;
                            let p = (x.trim().to_string(), y.trim().to_string());
                            if word == "map" {
                                e.maps.push(p)
                            } else {
                                e.sigmaps.push(p)
                            }
                        }
                        "known" => {
                            let (id, x) = rest.split_once(' ').ok_or_else(|| err("bad known"))?;
                            let (x, y) = x.split_once("=>").ok_or_else(|| err("bad known"))?;
                            e.known.push((id.to_string(), x.trim().to_string(), y.trim().to_string()));
                        }
                        "end" => {
                            let e = cur.take().unwrap();
                            if db.entries.insert(e.key.clone(), e).is_some() {
                                return Err(err("duplicate key"));
                            }
                            sec = Sec::None;
                        }
                        _ => return Err(err("unknown directive")),
                    }
                    continue;
                }
                if let Some(e) = cur.as_mut() {
                    let t = match &sec {
                        Sec::None => {
                            if line.trim().is_empty() || line.trim().starts_with('#') {
                                continue;
                            }
                            return Err(err("text outside a section"));
                        }
                        Sec::Contract => &mut e.contract,
                        Sec::Attrs => &mut e.attrs,
                        Sec::ImplExtra => &mut e.impl_extra,
                        Sec::With => &mut e.with,
                        Sec::Loop(k) => e.loops.get_mut(k).unwrap(),
                        Sec::At(i) => &mut e.at[*i].1,
                    };
                    t.push_str(line);
                    t.push('\n');
                } else if !line.trim().is_empty() && !line.starts_with('#') {
                    return Err(err("text outside @fn"));
                }
            }
            if cur.is_some() {
                return Err(format!("{}: missing @end", f.display()));
            }
        }
        Ok(db)
    }
    pub fn get(&self, k: &str) -> Option<&Entry> {
        self.entries.get(k)
    }
    pub fn keys(&self) -> Vec<String> {
        self.entries.keys().cloned().collect()
    }
}

#[derive(Default)]
pub struct Unit {
    pub includes: Vec<String>,
    pub tail: Vec<String>,
    pub types: Vec<String>,
    pub consts: Vec<String>,
    pub verify: Vec<String>,
    pub stub: Vec<String>,
    /// the units it builds on
    pub uses: Vec<String>,
}

impl Unit {
    pub fn load(p: &str) -> Result<Unit, String> {
        let mut u = Unit::default();
        let dir = std::path::Path::new(p).parent().unwrap().to_path_buf();
        u.load_into(p, &dir)?;
        Ok(u)
    }
    fn load_into(&mut self, p: &str, dir: &std::path::Path) -> Result<(), String> {
        let t = std::fs::read_to_string(p).map_err(|e| format!("{p}: {e}"))?;
        for line in t.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (w, r) = line.split_once(' ').ok_or(format!("{p}: bad line {line}"))?;
            let words = r.split_whitespace().map(|s| s.to_string());
            match w {
                "use" => {
                    self.uses.push(r.trim().trim_end_matches(".unit").to_string());
                    self.load_into(dir.join(r.trim()).to_str().unwrap(), dir)?
                }
                "include" => self.includes.extend(words),
                "tail" => self.tail.extend(words),
                "type" => self.types.extend(words),
                "const" => self.consts.extend(words),
                "verify" => self.verify.push(r.trim().to_string()),
                "stub" => self.stub.push(r.trim().to_string()),
                _ => return Err(format!("{p}: bad directive {w}")),
            }
        }
        Ok(())
    }
}
