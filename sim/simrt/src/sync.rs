//! Small synchronization helpers for harness code.
use crate::sched::{acquire, block, point, release, wake};
use std::{collections::VecDeque, sync::Mutex};

/// An unbounded FIFO between simulated threads.
pub struct Queue<T> {
    q: Mutex<VecDeque<T>>,
}

impl<T> Default for Queue<T> {
    fn default() -> Self {
        Self {
            q: Mutex::new(VecDeque::new()),
        }
    }
}

impl<T> Queue<T> {
    fn addr(&self) -> usize {
        &self.q as *const _ as usize
    }

    pub fn push(&self, v: T) {
        point("q_push");
        release(self.addr());
        self.q.lock().unwrap().push_back(v);
        wake(self.addr());
    }

    pub fn try_pop(&self) -> Option<T> {
        let v = self.q.lock().unwrap().pop_front();
        if v.is_some() {
            acquire(self.addr());
        }
        v
    }

    pub fn pop(&self) -> T {
        point("q_pop");
        loop {
            if let Some(v) = self.try_pop() {
                return v;
            }
            block("q_pop", self.addr());
        }
    }

    pub fn len(&self) -> usize {
        self.q.lock().unwrap().len()
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

/// A one-shot flag.
#[derive(Default)]
pub struct Flag {
    set: Mutex<bool>,
}

impl Flag {
    fn addr(&self) -> usize {
        &self.set as *const _ as usize
    }

    pub fn set(&self) {
        release(self.addr());
        *self.set.lock().unwrap() = true;
        wake(self.addr());
    }

    pub fn is_set(&self) -> bool {
        *self.set.lock().unwrap()
    }

    pub fn wait(&self, kind: &'static str) {
        while !self.is_set() {
            block(kind, self.addr());
        }
        acquire(self.addr());
    }
}
