// Only the types the optical recogniser mentions. Everything panics when called:
// nothing that a check drives may reach the neural network.
pub fn onnx() -> prelude::Onnx { unimplemented!("tract stub") }
pub mod prelude {
    pub type TractResult<T> = Result<T, TractError>;
    #[derive(Debug)]
    pub struct TractError;
    pub struct Onnx;
    impl Onnx { pub fn model_for_path(&self, _p: &str) -> TractResult<Model> { unimplemented!() } }
    pub struct Model;
    impl Model {
        pub fn with_input_fact(self, _i: usize, _f: InferenceFact) -> TractResult<Model> { unimplemented!() }
        pub fn into_optimized(self) -> TractResult<Model> { unimplemented!() }
        pub fn into_runnable(self) -> TractResult<SimplePlan<TypedFact, Box<dyn TypedOp>, Graph<TypedFact, Box<dyn TypedOp>>>> { unimplemented!() }
    }
    pub struct InferenceFact;
    impl InferenceFact { pub fn dt_shape<T>(_d: DatumType, _s: T) -> InferenceFact { unimplemented!() } }
    pub struct DatumType;
    pub trait Datum { fn datum_type() -> DatumType; }
    impl Datum for f32 { fn datum_type() -> DatumType { DatumType } }
    impl Datum for i32 { fn datum_type() -> DatumType { DatumType } }
    pub struct TypedFact;
    pub trait TypedOp {}
    pub struct Graph<F, O>(std::marker::PhantomData<(F, O)>);
    pub struct SimplePlan<F, O, M>(std::marker::PhantomData<(F, O, M)>);
    impl<F, O, M> SimplePlan<F, O, M> {
        pub fn run(&self, _i: Vec<Tensor>) -> TractResult<Vec<Tensor>> { unimplemented!() }
    }
    pub struct Tensor;
    impl Tensor { pub fn to_array_view<T>(&self) -> TractResult<Vec<T>> { unimplemented!() } }
    impl<D, T> From<tract_ndarray::Array<D, T>> for Tensor { fn from(_: tract_ndarray::Array<D, T>) -> Tensor { Tensor } }
    #[macro_export]
    macro_rules! tvec { ($($e:expr),* $(,)?) => { vec![$($e),*] } }
    pub use tvec;
    pub mod tract_ndarray {
        pub struct Array<D, T>(std::marker::PhantomData<(D, T)>);
        impl<D, T> Array<D, T> {
            pub fn from_shape_vec(_d: D, _v: Vec<T>) -> Result<Array<D, T>, ()> { unimplemented!() }
        }
    }
}
