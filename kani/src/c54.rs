//! Nested containers: the contract of a container is a function of its item's contract, composed
//! as the types are (C09, C13, C14, C22; sampled on the compiled code).
use crate::ghost::*;
use crate::shim::*;
use crate::{oblige, reach};
use binread::{BinRead, Error, FilePtr8, PosValue};

/// What a read yields.
#[derive(Clone, Debug, PartialEq)]
enum Va {
    Leaf(u32),
    List(Vec<Va>),
    Pos(u64, Box<Va>),
    Ptr(u8, Option<Box<Va>>),
}
use Va::*;

struct Sp {
    c: Chk,
    m: usize,
}
/// The contract of reading and of postprocessing a value of the type.
trait Nd: BinRead + Sized {
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va>;
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()>;
    fn same(&self, v: &Va) -> bool;
}
impl<const I: u8> Nd for E<I> {
    fn rd(s: &mut Sp, o: &O, _: u32) -> Sr<Va> {
        Ok(Leaf(s.c.rd(I, o)?))
    }
    fn post(s: &mut Sp, o: &O, _: u32, v: &mut Va) -> Sr<()> {
        match v {
            Leaf(x) => s.c.after(I, o, *x),
            _ => unreachable!(),
        }
    }
    fn same(&self, v: &Va) -> bool {
        *v == Leaf(self.0)
    }
}
impl<const I: u8> Nd for A<I> {
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        Ok(Leaf(s.c.rda(I, o, a)?))
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        match v {
            Leaf(x) => s.c.aftera(I, o, *x, a),
            _ => unreachable!(),
        }
    }
    fn same(&self, v: &Va) -> bool {
        *v == Leaf(self.0)
    }
}
fn items<T: Nd>(s: &mut Sp, o: &O, a: u32, n: usize) -> Sr<Va> {
    let mut l = vec![];
    for _ in 0..n {
        l.push(T::rd(s, o, a)?);
    }
    Ok(List(l))
}
fn posts<T: Nd>(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
    if let List(l) = v {
        for x in l {
            T::post(s, o, a, x)?;
        }
    }
    Ok(())
}
fn all<T: Nd>(x: &[T], v: &Va) -> bool {
    matches!(v, List(l) if l.len() == x.len() && l.iter().zip(x).all(|(v, x)| x.same(v)))
}
impl<T: Nd> Nd for Vec<T>
where
    T::Args: Copy,
    Vec<T>: BinRead,
{
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        items::<T>(s, &o.no_cnt(), a, o.cnt.unwrap())
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        posts::<T>(s, o, a, v)
    }
    fn same(&self, v: &Va) -> bool {
        all(self, v)
    }
}
impl<T: Nd, const N: usize> Nd for [T; N]
where
    [T; N]: BinRead,
{
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        items::<T>(s, o, a, N)
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        posts::<T>(s, o, a, v)
    }
    fn same(&self, v: &Va) -> bool {
        all(self, v)
    }
}
macro_rules! tup { ($($t:ident $i:tt),*) => {
    impl<$($t: Nd),*> Nd for ($($t,)*) where ($($t,)*): BinRead {
        fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
            Ok(List(vec![$($t::rd(s, o, a)?),*]))
        }
        fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
            if let List(l) = v { $( $t::post(s, o, a, &mut l[$i])?; )* }
            Ok(())
        }
        fn same(&self, v: &Va) -> bool {
            match v { List(l) => true $(&& self.$i.same(&l[$i]))*, _ => false }
        }
    }
} }
tup!(X 0, Y 1);
tup!(X 0, Y 1, Z 2);
tup!(X 0);
impl<T: Nd> Nd for Option<T> {
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        T::rd(s, o, a)
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        T::post(s, o, a, v)
    }
    fn same(&self, v: &Va) -> bool {
        self.as_ref().map_or(false, |x| x.same(v))
    }
}
impl<T: Nd> Nd for Box<T> {
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        T::rd(s, o, a)
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        T::post(s, o, a, v)
    }
    fn same(&self, v: &Va) -> bool {
        (**self).same(v)
    }
}
impl<T: Nd> Nd for PosValue<T> {
    fn rd(s: &mut Sp, o: &O, a: u32) -> Sr<Va> {
        let p = s.c.pos;
        Ok(Pos(p, Box::new(T::rd(s, o, a)?)))
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        match v {
            Pos(_, v) => T::post(s, o, a, v),
            _ => unreachable!(),
        }
    }
    fn same(&self, v: &Va) -> bool {
        matches!(v, Pos(p, v) if *p == self.pos && self.val.same(v))
    }
}
impl<T: Nd> Nd for FilePtr8<T> {
    fn rd(s: &mut Sp, _: &O, _: u32) -> Sr<Va> {
        let at = s.c.pos;
        if at >= g().len {
            return Err(Se::Io(1));
        }
        // the byte the reader delivered there
        if s.m >= g().rn || s.m >= RLN || g().rl[s.m].0 != at || g().rl[s.m].1 != 1 {
            s.c.place = false;
            return Ok(Ptr(0, None));
        }
        s.c.pos = at + 1;
        s.m += 1;
        Ok(Ptr(g().rl[s.m - 1].2 as u8, None))
    }
    fn post(s: &mut Sp, o: &O, a: u32, v: &mut Va) -> Sr<()> {
        match v {
            Ptr(p, t) => {
                let to = o.off as u128 + *p as u128;
                if to > MAXPOS as u128 {
                    return Err(Se::Io(3));
                }
                let back = s.c.pos;
                s.c.pos = to as u64;
                let mut x = T::rd(s, o, a)?;
                T::post(s, o, a, &mut x)?;
                *t = Some(Box::new(x));
                s.c.pos = back;
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn same(&self, v: &Va) -> bool {
        match v {
            Ptr(p, Some(v)) => *p == self.ptr && self.value.as_ref().map_or(false, |x| x.same(v)),
            Ptr(p, None) => *p == self.ptr && self.value.is_none(),
            _ => false,
        }
    }
}

trait Ar {
    fn ar(a: u32) -> Self;
}
impl Ar for () {
    fn ar(_: u32) {}
}
impl Ar for (u32,) {
    fn ar(a: u32) -> (u32,) {
        (a,)
    }
}
fn nested<T: Nd>()
where
    T::Args: Ar,
{
    init();
    let h = g();
    h.faults_on = false;
    h.small = nd_below(4) != 0;
    if h.small {
        h.pos &= 0xff;
        h.base = h.pos;
        h.len = 1 << 20;
    }
    h.el_err = nd_below(4) == 0;
    let a = nd_u32();
    let mut o = O::nd();
    o.cnt = Some(nd_below(4) as usize);
    let p0 = g().pos;
    let r = T::read_options(&mut Rd, &o.real(), T::Args::ar(a));
    let mut s = Sp { c: Chk::new(p0), m: 0 };
    let w = T::rd(&mut s, &o, a);
    oblige!("C09", s.c.order && s.c.i == g().n && s.c.place && s.m == g().rn.min(RLN), "exactly the items are read, in order, back to back");
    oblige!("C09", s.c.args && s.c.endian && s.c.opts, "each item gets the arguments and options");
    match (r, w) {
        (Ok(mut v), Ok(mut w)) => {
            oblige!("C09", v.same(&w), "exactly those items are returned");
            oblige!("C22", v.same(&w), "each PosValue holds its position and value");
            oblige!("C09", g().pos == s.c.pos, "the reader ends after the last item");
            // later, elsewhere, with other options
            g().pos = nd_pos();
            let q = g().pos;
            let mut o2 = O::nd();
            o2.cnt = Some(nd_below(4) as usize);
            if g().small {
                o2.off &= 0xff;
            }
            let a2 = nd_u32();
            let r = v.after_parse(&mut Rd, &o2.real(), T::Args::ar(a2));
            s.c.pos = q;
            let w2 = T::post(&mut s, &o2, a2, &mut w);
            oblige!("C14", s.c.done() && s.c.vals, "each item is postprocessed once, in order");
            oblige!("C13", s.c.done() && s.c.place, "each target is read at offset + pointer");
            oblige!("C14", s.c.args && s.c.endian && s.c.opts, "each item gets the arguments and options");
            oblige!("C13", s.c.args && s.c.endian && s.c.opts, "each target gets the arguments and options");
            oblige!("C14", agrees(&r, &w2, |_, _| true), "a failure of the step is returned");
            oblige!("C13", agrees(&r, &w2, |_, _| true), "a failure is returned");
            if r.is_ok() {
                oblige!("C13", v.same(&w), "each target is stored");
                oblige!("C22", v.same(&w), "postprocessing leaves positions and values as they are");
                oblige!("C13", !core::any::type_name::<T>().starts_with("binread::file_ptr") || g().pos == q, "the reader is back where it was");
            }
        }
        (Err(e), Err(x)) => oblige!("C09", err_is(&e, &x), "the first failure is returned unchanged"),
        _ => oblige!("C09", false, "the read succeeds exactly when every item does"),
    }
}

crate::contracts! { TAB;
    /*native*/ n_vec [10] { nested::<Vec<A<0>>>() }
    /*native*/ n_vec_arr [10] { nested::<Vec<[A<0>; 2]>>() }
    /*native*/ n_vec_tup [10] { nested::<Vec<(E<0>, E<1>)>>() }
    /*native*/ n_vec_opt_box [10] { nested::<Vec<Option<Box<A<0>>>>>() }
    /*native*/ n_arr_vec [10] { nested::<[Vec<A<0>>; 3]>() }
    /*native*/ n_arr_arr [10] { nested::<[[A<0>; 2]; 3]>() }
    /*native*/ n_tup_vec [10] { nested::<(Vec<E<0>>, E<1>, Vec<E<2>>)>() }
    /*native*/ n_tup_tup [10] { nested::<(E<0>, (E<1>, E<2>), [E<3>; 2])>() }
    /*native*/ n_tup1 [10] { nested::<(Option<Vec<E<1>>>,)>() }
    /*native*/ n_opt_vec_ptr [10] { nested::<Option<Vec<FilePtr8<E<0>>>>>() }
    /*native*/ n_vec_pos [10] { nested::<Vec<PosValue<A<0>>>>() }
    /*native*/ n_pos_vec [10] { nested::<PosValue<Vec<A<0>>>>() }
    /*native*/ n_pos_pos_vec [10] { nested::<PosValue<Vec<PosValue<A<0>>>>>() }
    /*native*/ n_pos_arr [10] { nested::<PosValue<(E<0>, PosValue<E<1>>)>>() }
    /*native*/ n_ptr [10] { nested::<FilePtr8<A<0>>>() }
    /*native*/ n_ptr_vec [10] { nested::<FilePtr8<Vec<A<0>>>>() }
    /*native*/ n_ptr_arr [10] { nested::<FilePtr8<[A<0>; 3]>>() }
    /*native*/ n_ptr_ptr [10] { nested::<FilePtr8<FilePtr8<A<0>>>>() }
    /*native*/ n_ptr_tup_ptr [10] { nested::<FilePtr8<(E<0>, FilePtr8<E<1>>, E<2>)>>() }
    /*native*/ n_vec_ptr [10] { nested::<Vec<FilePtr8<A<0>>>>() }
    /*native*/ n_vec_ptr_pos [10] { nested::<Vec<FilePtr8<PosValue<A<0>>>>>() }
    /*native*/ n_vec_ptr_vec [10] { nested::<Vec<FilePtr8<[FilePtr8Wrap; 2]>>>() }
    /*native*/ n_ptr_opt_vec_pos [10] { nested::<Option<FilePtr8<Vec<PosValue<E<0>>>>>>() }
    /*native*/ n_pos_ptr [10] { nested::<PosValue<FilePtr8<A<0>>>>() }
    /*native*/ n_ptr_pos [10] { nested::<FilePtr8<PosValue<A<0>>>>() }
    /*native*/ n_tup_ptr [10] { nested::<(FilePtr8<E<0>>, E<1>, FilePtr8<Box<E<2>>>)>() }
    /*native*/ n_box_tup_ptr [10] { nested::<Box<(FilePtr8<Vec<E<0>>>, PosValue<E<1>>)>>() }
}
type FilePtr8Wrap = A<3>;
