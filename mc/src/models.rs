//! Test individuals.
use rusty_genes::Individual;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {}

/// A finite fitness that is declared invalid nevertheless.
pub const UNFIT: f64 = -777.125;
/// What evaluations may yield for an invalid individual.
pub const BAD: [f64; 4] = [f64::NAN, UNFIT, f64::INFINITY, f64::NEG_INFINITY];
/// An individual with a given fitness.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub id: u32,
    pub fit: f64,
}
impl Individual for F {
    fn fitness(&self) -> f64 {
        crate::hook::yield_point();
        self.fit
    }
    fn is_valid(&self) -> bool {
        self.fit.is_finite() && self.fit != UNFIT
    }
}
/// Generations of a population and how many of them it has stagnated.
pub const AGES: [(usize, usize); 16] = [(1, 0), (1, 1), (2, 1), (5, 0), (16, 16), (33, 33), (50, 0), (65, 64), (100, 0), (101, 101), (130, 65), (256, 0), (256, 256), (257, 20), (300, 300), (1030, 1025)];
/// A population of these individuals at such an age; `low` must be less fit than all of them.
pub fn aged<I: Individual>(list: &[I], low: I, (generation, stagnation): (usize, usize)) -> rusty_genes::Population<I> {
    let early = generation - stagnation;
    let mut pop = rusty_genes::Population::new(if early == 0 { list.to_vec() } else { vec![low.clone()] });
    for k in 1..=generation {
        let mut next = if k < early { vec![low.clone()] } else { list.to_vec() };
        pop.replace(&mut next);
    }
    if (pop.generation(), pop.stagnation()) != (generation, stagnation) {
        // not for this check to judge
        crate::engine::skip()
    }
    pop
}
/// Individuals of the given scores, numbered.
pub fn scored(fits: &[f64]) -> Vec<F> {
    fits.iter().enumerate().map(|(i, &fit)| F { id: i as u32, fit }).collect()
}
/// An individual that is compared by its kind alone.
#[derive(Clone, Debug)]
pub struct Kind {
    pub kind: u32,
    pub serial: u32,
    pub fit: f64,
}
impl PartialEq for Kind {
    fn eq(&self, o: &Self) -> bool {
        self.kind == o.kind
    }
}
impl Individual for Kind {
    fn fitness(&self) -> f64 {
        self.fit
    }
}
