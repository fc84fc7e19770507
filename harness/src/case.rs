//! A test case: only text, so that it can be stored, replayed and shrunk
use crate::json::{n, s, J};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    /// selects the oracle where a property has several
    pub kind: String,
    pub table: String,
    pub backward: bool,
    pub inputs: Vec<String>,
    /// emphasis spans in characters, for all inputs
    pub spans: Vec<(String, usize, usize)>,
    pub files: Vec<(String, String)>,
    pub extra: Vec<(String, String)>,
}

impl Case {
    pub fn get(&self, k: &str) -> &str {
        self.extra.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        match self.extra.iter_mut().find(|(a, _)| a == k) {
            Some(e) => e.1 = v,
            None => self.extra.push((k.to_string(), v)),
        }
    }
    pub fn to_json(&self) -> J {
        let pairs = |v: &Vec<(String, String)>| {
            J::Arr(v.iter().map(|(a, b)| J::Arr(vec![s(a.clone()), s(b.clone())])).collect())
        };
        J::Obj(vec![
            ("property".into(), s(self.prop.clone())),
            ("kind".into(), s(self.kind.clone())),
            ("table".into(), s(self.table.clone())),
            ("backward".into(), J::Bool(self.backward)),
            ("inputs".into(), J::Arr(self.inputs.iter().map(|i| s(i.clone())).collect())),
            (
                "spans".into(),
                J::Arr(
                    self.spans
                        .iter()
                        .map(|(a, b, c)| J::Arr(vec![s(a.clone()), n(*b as i64), n(*c as i64)]))
                        .collect(),
                ),
            ),
            ("files".into(), pairs(&self.files)),
            ("extra".into(), pairs(&self.extra)),
        ])
    }
    pub fn from_json(j: &J) -> Case {
        let pairs = |j: &J| {
            j.arr().iter().map(|p| (p.arr()[0].str(), p.arr()[1].str())).collect::<Vec<_>>()
        };
        Case {
            prop: j.get("property").str(),
            kind: j.get("kind").str(),
            table: j.get("table").str(),
            backward: j.get("backward") == &J::Bool(true),
            inputs: j.get("inputs").arr().iter().map(|x| x.str()).collect(),
            spans: j
                .get("spans")
                .arr()
                .iter()
                .map(|p| {
                    let a = p.arr();
                    (a[0].str(), a[1].num() as usize, a[2].num() as usize)
                })
                .collect(),
            files: pairs(j.get("files")),
            extra: pairs(j.get("extra")),
        }
    }
    /// the case without its name, to tell distinct cases
    pub fn key(&self) -> u64 {
        crate::util::hash_str(&self.to_json().to_text())
    }
}
