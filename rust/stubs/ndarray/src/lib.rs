//! Stand-in for the parts of ndarray which the backend uses: owned row-major arrays of one and two dimensions.
use std::marker::PhantomData;

pub trait Dimension: Clone {
    fn slice(&self) -> &[usize];
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dim<I>(pub I);

impl<const N: usize> Dimension for Dim<[usize; N]> {
    fn slice(&self) -> &[usize] {
        &self.0
    }
}

pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;

pub trait Data {
    type Elem;
    fn all(&self) -> &[Self::Elem];
}

#[derive(Clone, Debug, PartialEq)]
pub struct OwnedRepr<A>(Vec<A>);

impl<A> Data for OwnedRepr<A> {
    type Elem = A;
    fn all(&self) -> &[A] {
        &self.0
    }
}

#[derive(Clone, Debug)]
pub struct ViewRepr<A>(A);

impl<'a, A> Data for ViewRepr<&'a [A]> {
    type Elem = A;
    fn all(&self) -> &[A] {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ArrayBase<S, D> {
    data: S,
    dim: D,
}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a [A]>, D>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;

#[derive(Debug)]
pub struct ShapeError(PhantomData<()>);

impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "incompatible shapes")
    }
}

impl std::error::Error for ShapeError {}

impl<A> Array2<A> {
    pub fn from_shape_vec(shape: (usize, usize), v: Vec<A>) -> Result<Self, ShapeError> {
        if shape.0 * shape.1 != v.len() {
            return Err(ShapeError(PhantomData));
        }
        Ok(ArrayBase { data: OwnedRepr(v), dim: Dim([shape.0, shape.1]) })
    }
    pub fn get(&self, i: [usize; 2]) -> Option<&A> {
        let s = self.dim.0;
        if i[0] < s[0] && i[1] < s[1] {
            self.data.0.get(i[0] * s[1] + i[1])
        } else {
            None
        }
    }
    pub fn nrows(&self) -> usize {
        self.dim.0[0]
    }
    pub fn ncols(&self) -> usize {
        self.dim.0[1]
    }
    pub fn row(&self, i: usize) -> ArrayView1<'_, A> {
        let c = self.dim.0[1];
        ArrayBase { data: ViewRepr(&self.data.0[i * c..(i + 1) * c]), dim: Dim([c]) }
    }
}

impl<A> std::ops::Index<[usize; 2]> for Array2<A> {
    type Output = A;
    fn index(&self, i: [usize; 2]) -> &A {
        self.get(i).expect("index out of bounds")
    }
}

impl<A> Array1<A> {
    pub fn from_vec(v: Vec<A>) -> Self {
        let n = v.len();
        ArrayBase { data: OwnedRepr(v), dim: Dim([n]) }
    }
    pub fn get(&self, i: usize) -> Option<&A> {
        self.data.0.get(i)
    }
}

impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Array1::from_vec(v)
    }
}

impl<A, D: Dimension> Array<A, D> {
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.0
    }
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn len(&self) -> usize {
        self.data.all().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> std::slice::Iter<'_, S::Elem> {
        self.data.all().iter()
    }
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.data.all().to_vec()
    }
    pub fn map<B, F: FnMut(&S::Elem) -> B>(&self, f: F) -> Array<B, D> {
        ArrayBase { data: OwnedRepr(self.data.all().iter().map(f).collect()), dim: self.dim.clone() }
    }
}
