//! Stand-in for inventory: what is submitted anywhere in the program can be iterated over.
use std::{
    any::{Any, TypeId},
    marker::PhantomData,
    sync::Mutex,
};
static ALL: Mutex<Vec<(TypeId, &'static (dyn Any + Sync))>> = Mutex::new(Vec::new());
pub fn add<T: Any + Sync>(x: &'static T) {
    ALL.lock().unwrap().push((TypeId::of::<T>(), x));
}
#[allow(non_camel_case_types)]
pub enum Of<T> {
    iter,
    #[doc(hidden)]
    Never(PhantomData<T>),
}
pub use Of::iter;
impl<T: Any + Sync> IntoIterator for Of<T> {
    type Item = &'static T;
    type IntoIter = std::vec::IntoIter<&'static T>;
    fn into_iter(self) -> Self::IntoIter {
        let all = ALL.lock().unwrap();
        let v: Vec<&'static T> = all.iter().filter_map(|(_, x)| (*x as &dyn Any).downcast_ref()).collect();
        v.into_iter()
    }
}
#[macro_export]
macro_rules! collect {
    ($t:ty) => {};
}
#[macro_export]
macro_rules! submit {
    ($value:expr) => {
        const _: () = {
            extern "C" fn enter() {
                $crate::add(Box::leak(Box::new($value)))
            }
            #[used]
            #[unsafe(link_section = ".init_array")]
            static ENTER: extern "C" fn() = enter;
        };
    };
}
