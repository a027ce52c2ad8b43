//! Stand-in for the JavaScript world: values, promises, functions, objects. One thread only.
mod ser;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    fmt,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};

/// An object of the other side, called by name.
pub trait Imported {
    fn call(&self, name: &str, args: &[JsValue]) -> Result<JsValue, JsValue>;
}
#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Num(f64),
    Str(String),
    Bytes(Uint8Array),
    Object(Object),
    Promise(Promise),
    /// A plain value; whether its maps are objects.
    Json(serde_json::Value, bool),
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const fn undefined() -> Self {
        JsValue::Undefined
    }
    pub const fn null() -> Self {
        JsValue::Null
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.into())
    }
    pub fn from_f64(s: f64) -> Self {
        JsValue::Num(s)
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Num(n) => write!(f, "JsValue({n})"),
            JsValue::Str(s) => write!(f, "JsValue({s:?})"),
            JsValue::Bytes(_) => write!(f, "JsValue(Uint8Array)"),
            JsValue::Object(_) => write!(f, "JsValue(Object)"),
            JsValue::Promise(_) => write!(f, "JsValue(Promise)"),
            JsValue::Json(v, _) => write!(f, "JsValue({v})"),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<f64> for JsValue {
    fn from(s: f64) -> Self {
        JsValue::Num(s)
    }
}
impl From<Uint8Array> for JsValue {
    fn from(s: Uint8Array) -> Self {
        JsValue::Bytes(s)
    }
}
impl From<Promise> for JsValue {
    fn from(s: Promise) -> Self {
        JsValue::Promise(s)
    }
}
impl From<Object> for JsValue {
    fn from(s: Object) -> Self {
        JsValue::Object(s)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Bytes, shared by whoever has a handle.
#[derive(Clone)]
pub struct Uint8Array(pub Rc<RefCell<Vec<u8>>>);
impl Uint8Array {
    pub fn new(v: &JsValue) -> Self {
        match v {
            JsValue::Bytes(b) => Uint8Array(Rc::new(RefCell::new(b.to_vec()))),
            // as in JavaScript: nothing, or as many zeros as asked for
            JsValue::Num(n) => Uint8Array(Rc::new(RefCell::new(vec![0; *n as usize]))),
            _ => Uint8Array(Rc::new(RefCell::new(vec![]))),
        }
    }
    pub fn new_with_length(n: u32) -> Self {
        Uint8Array(Rc::new(RefCell::new(vec![0; n as usize])))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.length()
    }
    pub fn copy_to(&self, dst: &mut [u8]) {
        dst.copy_from_slice(&self.0.borrow())
    }
    pub fn copy_from(&self, src: &[u8]) {
        self.0.borrow_mut().copy_from_slice(src)
    }
    pub fn subarray(&self, a: u32, b: u32) -> Self {
        Uint8Array(Rc::new(RefCell::new(self.0.borrow()[a as usize..b as usize].to_vec())))
    }
    pub fn slice(&self, a: u32, b: u32) -> Self {
        self.subarray(a, b)
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Uint8Array(Rc::new(RefCell::new(b.to_vec())))
    }
}

type Job = Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>;
enum State {
    Wait(Option<Waker>),
    Job(Job),
    Done(Result<JsValue, JsValue>),
}
/// A promise: settled by the harness, or by a computation of it.
#[derive(Clone)]
pub struct Promise(Rc<RefCell<State>>);
impl Promise {
    pub fn pending() -> Self {
        Promise(Rc::new(RefCell::new(State::Wait(None))))
    }
    pub fn job(f: impl Future<Output = Result<JsValue, JsValue>> + 'static) -> Self {
        Promise(Rc::new(RefCell::new(State::Job(Box::pin(f)))))
    }
    pub fn done(r: Result<JsValue, JsValue>) -> Self {
        Promise(Rc::new(RefCell::new(State::Done(r))))
    }
    pub fn resolve(v: &JsValue) -> Self {
        Self::done(Ok(v.clone()))
    }
    pub fn reject(v: &JsValue) -> Self {
        Self::done(Err(v.clone()))
    }
    /// Settles it, and wakes who waits.
    pub fn settle(&self, r: Result<JsValue, JsValue>) {
        let old = std::mem::replace(&mut *self.0.borrow_mut(), State::Done(r));
        if let State::Wait(Some(w)) = old {
            w.wake()
        }
    }
}
impl TryFrom<JsValue> for Promise {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<Self, JsValue> {
        match v {
            JsValue::Promise(p) => Ok(p),
            _ => Err(JsValue::from("not a promise")),
        }
    }
}
pub struct JsFuture(Promise);
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture(p)
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.0.borrow_mut();
        match &mut *s {
            State::Wait(w) => {
                *w = Some(cx.waker().clone());
                Poll::Pending
            }
            State::Job(j) => {
                let r = match j.as_mut().poll(cx) {
                    Poll::Ready(r) => r,
                    Poll::Pending => return Poll::Pending,
                };
                *s = State::Done(r.clone());
                Poll::Ready(r)
            }
            State::Done(r) => Poll::Ready(r.clone()),
        }
    }
}

/// An object: fields by name.
#[derive(Clone, Default)]
pub struct Object(Rc<RefCell<BTreeMap<String, JsValue>>>, HoldsValue);
#[derive(Clone, Default)]
struct HoldsValue;
impl Object {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn fields(&self) -> BTreeMap<String, JsValue> {
        self.0.borrow().clone()
    }
}
/// What takes a value takes an object as well.
pub trait Value {
    fn value(&self) -> JsValue;
}
impl Value for JsValue {
    fn value(&self) -> JsValue {
        self.clone()
    }
}
impl Value for Object {
    fn value(&self) -> JsValue {
        JsValue::Object(self.clone())
    }
}
pub struct Reflect;
impl Reflect {
    pub fn set(t: &impl Value, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        match (t.value(), k) {
            (JsValue::Object(o), JsValue::Str(k)) => {
                o.0.borrow_mut().insert(k.clone(), v.clone());
                Ok(true)
            }
            _ => Err(JsValue::from("no object")),
        }
    }
}
#[derive(Clone)]
pub struct Function(pub Rc<dyn Fn(&JsValue) -> Result<JsValue, JsValue>>);
impl Function {
    pub fn call1(&self, _this: &JsValue, a: &impl Value) -> Result<JsValue, JsValue> {
        (self.0)(&a.value())
    }
}
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.into())
    }
}
pub use wasm_sim_macro::{Tsify, wasm_bindgen};
pub mod prelude {
    pub use crate::{JsError, JsValue, wasm_bindgen};
}

/// serde-wasm-bindgen
pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, serde_json::Error> {
    let j = match v {
        JsValue::Json(j, _) => j,
        JsValue::Null | JsValue::Undefined => serde_json::Value::Null,
        JsValue::Str(s) => s.into(),
        JsValue::Num(n) => serde_json::json!(n),
        _ => return Err(serde::de::Error::custom("not plain")),
    };
    serde_json::from_value(j)
}
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, serde_json::Error> {
    v.serialize(&Serializer::new())
}
pub struct Serializer(bool);
impl Serializer {
    pub const fn new() -> Self {
        Serializer(false)
    }
    pub const fn json_compatible() -> Self {
        Serializer(true)
    }
    pub const fn serialize_maps_as_objects(self, b: bool) -> Self {
        Serializer(b)
    }
}
