//! Minimisation of a failing scenario: every step keeps the class of the violation.

use crate::json::V;
use std::time::Instant;

#[derive(Clone)]
enum Step {
    Key(usize),
    At(usize),
}

fn paths(v: &V, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        V::O(o) => {
            for (k, (_, x)) in o.iter().enumerate() {
                here.push(Step::Key(k));
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        V::A(a) => {
            for (k, x) in a.iter().enumerate() {
                here.push(Step::At(k));
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a V, p: &[Step]) -> Option<&'a V> {
    let mut v = v;
    for s in p {
        v = match (s, v) {
            (Step::Key(k), V::O(o)) => &o.get(*k)?.1,
            (Step::At(k), V::A(a)) => a.get(*k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn with(v: &V, p: &[Step], new: V) -> V {
    if p.is_empty() {
        return new;
    }
    let mut v = v.clone();
    {
        let mut cur = &mut v;
        for s in p {
            cur = match (s, cur) {
                (Step::Key(k), V::O(o)) => &mut o[*k].1,
                (Step::At(k), V::A(a)) => &mut a[*k],
                _ => return V::Null,
            };
        }
        *cur = new;
    }
    v
}

pub struct Shrinker<'a> {
    pub still: &'a mut dyn FnMut(&V) -> bool,
    pub until: Instant,
    pub tries: u64,
}

impl Shrinker<'_> {
    fn try_one(&mut self, c: &V) -> bool {
        if Instant::now() >= self.until {
            return false;
        }
        self.tries += 1;
        (self.still)(c)
    }

    fn chunks(&mut self, best: &mut V, p: &[Step], len: impl Fn(&V) -> usize, cut: impl Fn(&V, usize, usize) -> V) -> bool {
        let mut any = false;
        let mut size = match at(best, p) {
            Some(x) => len(x),
            None => return false,
        };
        while size >= 1 {
            let mut from = 0;
            loop {
                let Some(cur) = at(best, p) else { return any };
                let n = len(cur);
                if from >= n {
                    break;
                }
                let cand = with(best, p, cut(cur, from, (from + size).min(n)));
                if self.try_one(&cand) {
                    *best = cand;
                    any = true;
                } else {
                    from += size;
                }
                if Instant::now() >= self.until {
                    return any;
                }
            }
            size /= 2;
        }
        any
    }

    pub fn run(&mut self, start: &V) -> V {
        let mut best = start.clone();
        loop {
            let mut any = false;
            let mut list = vec![];
            paths(&best, &mut vec![], &mut list);
            list.sort_by_key(|p| p.len());
            for p in list {
                if Instant::now() >= self.until {
                    return best;
                }
                let Some(cur) = at(&best, &p).cloned() else { continue };
                match &cur {
                    V::A(_) => {
                        any |= self.chunks(
                            &mut best,
                            &p,
                            |x| x.arr().len(),
                            |x, a, b| V::A(x.arr()[..a].iter().chain(&x.arr()[b..]).cloned().collect()),
                        );
                    }
                    V::S(t) if !t.is_empty() => {
                        any |= self.chunks(
                            &mut best,
                            &p,
                            |x| x.str().chars().count(),
                            |x, a, b| V::S(x.str().chars().take(a).chain(x.str().chars().skip(b)).collect()),
                        );
                    }
                    V::I(n) => {
                        let mut cands = vec![];
                        for c in [0, 1, n / 2, n - n.signum()] {
                            if c != *n && !cands.contains(&c) {
                                cands.push(c);
                            }
                        }
                        for c in cands {
                            let cand = with(&best, &p, V::I(c));
                            if c.abs() < n.abs() && self.try_one(&cand) {
                                best = cand;
                                any = true;
                                break;
                            }
                        }
                    }
                    V::B(true) => {
                        let cand = with(&best, &p, V::B(false));
                        if self.try_one(&cand) {
                            best = cand;
                            any = true;
                        }
                    }
                    V::O(_) => {
                        let cand = with(&best, &p, V::Null);
                        if self.try_one(&cand) {
                            best = cand;
                            any = true;
                        }
                    }
                    _ => {}
                }
            }
            if !any || Instant::now() >= self.until {
                return best;
            }
        }
    }
}
