use std::cell::OnceCell;
#[derive(Debug, Default)]
pub struct LazyCell<T>(OnceCell<T>);
impl<T> LazyCell<T> {
    pub fn new() -> Self { LazyCell(OnceCell::new()) }
    pub fn filled(&self) -> bool { self.0.get().is_some() }
    pub fn fill(&self, v: T) -> Result<(), T> { self.0.set(v) }
    pub fn borrow(&self) -> Option<&T> { self.0.get() }
    pub fn borrow_mut(&mut self) -> Option<&mut T> { self.0.get_mut() }
    pub fn replace(&mut self, v: T) -> Option<T> { let o = self.0.take(); let _ = self.0.set(v); o }
    pub fn borrow_with<F: FnOnce() -> T>(&self, f: F) -> &T { self.0.get_or_init(f) }
}
