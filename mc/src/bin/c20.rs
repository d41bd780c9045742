//! C20: every history of subscriptions, emissions and unsubscriptions on stacks of filters.
use mc::*;
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions, Predicate};
use std::cell::RefCell;
use std::rc::Rc;

type Shared<T> = Rc<RefCell<T>>;
struct Item {
    /// Number of the emission, and the subscription it was made for.
    emission: usize,
    value: u8,
    log: Shared<Log>,
}
impl Drop for Item {
    fn drop(&mut self) {
        self.log.borrow_mut().dropped += 1
    }
}
#[derive(Default, Debug, PartialEq, Clone)]
enum Ev {
    /// predicate (stack, level) consulted for an emission
    Test(usize, usize, usize),
    /// subscriber got an emission with a value
    Got(usize, usize, u8),
    #[default]
    Never,
}
#[derive(Default)]
struct Log {
    evs: Vec<Ev>,
    made: usize,
    dropped: usize,
}
#[derive(Clone)]
struct Subject {
    subs: Shared<Vec<(usize, Box<dyn IObserver<Item>>)>>,
    next: Shared<usize>,
}
struct Sub(Subject, usize);
impl Drop for Sub {
    fn drop(&mut self) {
        self.0.subs.borrow_mut().retain(|s| s.0 != self.1)
    }
}
trait Erase: IObserver<Item> {
    fn erase(self) -> Box<dyn IObserver<Item>>;
}
struct Holder<U>(U);
impl<U: IObserver<Item>> IObserver<Item> for Holder<U> {
    fn next(&mut self, i: Item) {
        self.0.next(i)
    }
}
impl<'a> IObservable<Item> for Subject {
    type Subscription<U: IObserver<Item>> = Sub;
    fn subscribe<U: IObserver<Item>>(&self, observer: U) -> Sub {
        let id = *self.next.borrow();
        *self.next.borrow_mut() += 1;
        // the trait does not demand 'static, every observer used here is
        let b: Box<dyn IObserver<Item> + '_> = Box::new(Holder(observer));
        let b: Box<dyn IObserver<Item>> = unsafe { std::mem::transmute(b) };
        self.subs.borrow_mut().push((id, b));
        Sub(self.clone(), id)
    }
}
struct Observer {
    id: usize,
    log: Shared<Log>,
}
impl IObserver<Item> for Observer {
    fn next(&mut self, i: Item) {
        self.log.borrow_mut().evs.push(Ev::Got(self.id, i.emission, i.value));
        drop(i)
    }
}
struct Pred {
    stack: usize,
    level: usize,
    set: usize,
    log: Shared<Log>,
}
impl Predicate<Item> for Pred {
    fn test(&self, i: &Item) -> bool {
        self.log.borrow_mut().evs.push(Ev::Test(self.stack, self.level, i.emission));
        self.set >> i.value & 1 == 1
    }
}
trait Stack {
    fn sub(&self, o: Observer) -> Box<dyn std::any::Any>;
}
struct St<O>(O);
impl<O: IObservable<Item>> Stack for St<O>
where
    O::Subscription<Observer>: 'static,
{
    fn sub(&self, o: Observer) -> Box<dyn std::any::Any> {
        Box::new(self.0.subscribe(o))
    }
}
const VALUES: usize = 2;
fn history(depth: usize, levels: usize, stacks: usize, max_subs: usize) -> R {
    let log: Shared<Log> = Default::default();
    let subject = Subject { subs: Default::default(), next: Default::default() };
    let mut sets: Vec<Vec<usize>> = vec![];
    let mut st: Vec<Box<dyn Stack>> = vec![];
    for s in 0..stacks {
        let n = choose(levels + 1);
        let set: Vec<usize> = (0..n).map(|_| choose(1 << VALUES)).collect();
        let p = |l: usize| Pred { stack: s, level: l, set: set[l], log: log.clone() };
        let x = subject.clone();
        st.push(match n {
            0 => Box::new(St(x)),
            1 => Box::new(St(x.filter(p(0)))),
            2 => Box::new(St(x.filter(p(0)).filter(p(1)))),
            3 => Box::new(St(x.filter(p(0)).filter(p(1)).filter(p(2)))),
            _ => Box::new(St(x.filter(p(0)).filter(p(1)).filter(p(2)).filter(p(3)))),
        });
        logln!("stack {s}: predicates let through {set:?} (bit sets)");
        sets.push(set);
    }
    let mut subs: Vec<(usize, usize, Box<dyn std::any::Any>)> = vec![]; // id, stack, subscription
    let (mut ids, mut emissions) = (0, 0);
    let mut want: Vec<Ev> = vec![];
    for _ in 0..depth {
        let can = (subs.len() < max_subs) as usize * stacks;
        let c = choose(VALUES + can + subs.len());
        if c < VALUES {
            let v = c as u8;
            logln!("emit {v}");
            let mut l = std::mem::take(&mut *subject.subs.borrow_mut());
            for (_, o) in l.iter_mut() {
                log.borrow_mut().made += 1;
                o.next(Item { emission: emissions, value: v, log: log.clone() });
            }
            *subject.subs.borrow_mut() = l;
            for (id, s, _) in &subs {
                let mut pass = true;
                for (l, set) in sets[*s].iter().enumerate() {
                    want.push(Ev::Test(*s, l, emissions));
                    if set >> v & 1 == 0 {
                        pass = false;
                        break;
                    }
                }
                if pass {
                    want.push(Ev::Got(*id, emissions, v));
                }
            }
            emissions += 1;
        } else if c < VALUES + can {
            let s = c - VALUES;
            logln!("subscribe to stack {s}");
            let x = st[s].sub(Observer { id: ids, log: log.clone() });
            subs.push((ids, s, x));
            ids += 1;
        } else {
            logln!("unsubscribe {}", c - VALUES - can);
            subs.remove(c - VALUES - can);
        }
        check_eq!(log.borrow().evs, want, "events", "consulted predicates and deliveries");
        check_eq!(log.borrow().dropped, log.borrow().made, "items", "items dropped");
        check_eq!(subject.subs.borrow().len(), subs.len(), "subscriptions", "live subscriptions");
        state(&(&sets, subs.iter().map(|s| s.1).collect::<Vec<_>>()));
    }
    outcome(&format!("{want:?}"));
    // the filters may go before their subscriptions
    if flag() {
        drop(st);
        drop(subs);
    } else {
        drop(subs);
        drop(st);
    }
    check_eq!(Rc::strong_count(&log), 1, "leak", "references to the predicates or observers left");
    Ok(())
}
/// Long histories: many emissions to many subscribers of one stack, with predicates that count their consultations.
fn many(emissions: &[usize], subscribers: &[usize]) -> R {
    let (n, m) = (pick(emissions), pick(subscribers));
    let levels = choose(4);
    let every: Vec<usize> = (0..levels).map(|_| pick(&[1, 2, 3])).collect();
    let join = pick(&[0, n / 2]); // emission before which the last subscriber joins
    logln!("{n} emissions, {m} subscribers, filters let through every {every:?}th, the last joins at {join}");
    let log: Shared<Log> = Default::default();
    let subject = Subject { subs: Default::default(), next: Default::default() };
    let asked: Vec<Rc<RefCell<usize>>> = (0..levels).map(|_| Default::default()).collect();
    let p = |l: usize| {
        let (c, k) = (asked[l].clone(), every[l]);
        move |_: &Item| {
            *c.borrow_mut() += 1;
            *c.borrow() % k == 0
        }
    };
    let x = subject.clone();
    let st: Box<dyn Stack> = match levels {
        0 => Box::new(St(x)),
        1 => Box::new(St(x.filter(p(0)))),
        2 => Box::new(St(x.filter(p(0)).filter(p(1)))),
        _ => Box::new(St(x.filter(p(0)).filter(p(1)).filter(p(2)))),
    };
    let mut subs: Vec<Box<dyn std::any::Any>> = vec![];
    let mut asked_want = vec![0usize; levels];
    let mut want: Vec<Ev> = vec![];
    for e in 0..=n {
        if e == 0 {
            subs.extend((1..m).map(|i| st.sub(Observer { id: i - 1, log: log.clone() })));
        }
        if e == join && m > 0 {
            subs.push(st.sub(Observer { id: m - 1, log: log.clone() }));
        }
        if e == n {
            break;
        }
        explore::alive();
        let mut l = std::mem::take(&mut *subject.subs.borrow_mut());
        for (id, o) in l.iter_mut() {
            log.borrow_mut().made += 1;
            o.next(Item { emission: e, value: 0, log: log.clone() });
            if (0..levels).all(|l| {
                asked_want[l] += 1;
                asked_want[l] % every[l] == 0
            }) {
                want.push(Ev::Got(*id, e, 0));
            }
        }
        *subject.subs.borrow_mut() = l;
    }
    check_eq!(log.borrow().evs.len(), want.len(), "events", "deliveries");
    for (i, (g, w)) in log.borrow().evs.iter().zip(&want).enumerate() {
        check_eq!(g, w, "events", "delivery {i}");
    }
    let got: Vec<usize> = asked.iter().map(|c| *c.borrow()).collect();
    check_eq!(got, asked_want, "events", "consultations of the predicates");
    check_eq!(log.borrow().dropped, log.borrow().made, "items", "items dropped");
    check_eq!(subject.subs.borrow().len(), m, "subscriptions", "live subscriptions");
    outcome(&want.len());
    Ok(())
}
/// Emits its items to every observer as it subscribes.
#[derive(Clone)]
struct Cold {
    items: Vec<u8>,
    log: Shared<Log>,
}
impl IObservable<Item> for Cold {
    type Subscription<U: IObserver<Item>> = U;
    fn subscribe<U: IObserver<Item>>(&self, mut o: U) -> U {
        for (e, &value) in self.items.iter().enumerate() {
            self.log.borrow_mut().made += 1;
            o.next(Item { emission: e, value, log: self.log.clone() });
        }
        o
    }
}
fn cold(len: usize, levels: usize) -> R {
    let log: Shared<Log> = Default::default();
    let n = choose(levels + 1);
    let set: Vec<usize> = (0..n).map(|_| choose(1 << VALUES)).collect();
    let items: Vec<u8> = pick_word(VALUES, len).into_iter().map(|v| v as u8).collect();
    logln!("predicates let through {set:?} (bit sets), {items:?} emitted at each subscription");
    let p = |l: usize| Pred { stack: 0, level: l, set: set[l], log: log.clone() };
    let x = Cold { items: items.clone(), log: log.clone() };
    let st: Box<dyn Stack> = match n {
        0 => Box::new(St(x)),
        1 => Box::new(St(x.filter(p(0)))),
        2 => Box::new(St(x.filter(p(0)).filter(p(1)))),
        _ => Box::new(St(x.filter(p(0)).filter(p(1)).filter(p(2)))),
    };
    let mut want = vec![];
    for id in 0..2 {
        let s = st.sub(Observer { id, log: log.clone() });
        for (e, v) in items.iter().enumerate() {
            let pass = set.iter().enumerate().all(|(l, set)| {
                want.push(Ev::Test(0, l, e));
                set >> v & 1 == 1
            });
            if pass {
                want.push(Ev::Got(id, e, *v));
            }
        }
        check_eq!(log.borrow().evs, want, "events", "consulted predicates and deliveries");
        check_eq!(log.borrow().dropped, log.borrow().made, "items", "items dropped");
        drop(s);
    }
    outcome(&format!("{want:?}"));
    drop(st);
    check_eq!(Rc::strong_count(&log), 1, "leak", "references to the predicates or observers left");
    Ok(())
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        let (len, lv) = t.pick((2, 1), (8, 2), (8, 3));
        v.push(job("items emitted while subscribing", 0, move || cold(len, lv)));
        let (e, s) = (explore::sizes(t.pick(1, 20, 40), t.pick(2, 16385, 65537)), vec![0, 1, 2, 3]);
        v.push(job("many emissions", 0, move || many(&e, &s)));
        let (e, s) = (vec![0, 1, 2, 7], explore::sizes(t.pick(1, 20, 40), t.pick(2, 4097, 16385)));
        v.push(job("many subscribers", 0, move || many(&e, &s)));
        for (l, s, m, d) in t.pick(vec![(2, 1, 1, 2)], vec![(4, 1, 2, 6), (2, 2, 3, 5), (1, 1, 3, 10)], vec![(4, 1, 2, 6), (4, 1, 3, 6), (3, 2, 3, 5), (2, 2, 3, 6), (1, 1, 3, 10)]) {
            v.push(job(format!("up to {l} filters in {s} stacks, {m} subscribers"), 0, move || history(d, l, s, m)));
        }
        v
    })
}
