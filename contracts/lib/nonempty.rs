//@type src/non_empty_vec.rs NonEmptyVec
//@end
impl<T> NonEmptyVec<T> {
    pub open spec fn view(&self) -> Seq<T> { seq![self.first] + self.others@ }
    pub open spec fn fits(&self) -> bool { self.others@.len() < usize::MAX }
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` new r
//@spec
    ensures r@ == seq![first],
//@pre
    proof { assert(seq![first] + Seq::<T>::empty() =~= seq![first]); }
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` with_capacity r
//@spec
    ensures r@ == seq![first],
//@pre
    proof { assert(seq![first] + Seq::<T>::empty() =~= seq![first]); }
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` first r
//@spec
    ensures *r == self@[0],
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` last r
//@spec
    ensures *r == self@.last(),
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` len r
//@spec
    requires self.fits(),
    ensures r == self@.len(),
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` is_single r
//@spec
    ensures r == (self@.len() == 1),
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` first_mut r
//@spec
    ensures *r == old(self)@[0], final(self)@ =~= old(self)@.update(0, *final(r)),
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` last_mut r
//@sub? `self.$v.last_mut().unwrap_or(&mut $d)` => `match self.$v.last_mut() { Some(vf_x) => vf_x, None => &mut $d }`
//@spec
    ensures *r == old(self)@.last(), final(self)@ =~= old(self)@.update(old(self)@.len() - 1, *final(r)),
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` push
//@spec
    ensures final(self)@ == old(self)@.push(item),
//@post
    proof { assert(self@ =~= old(self)@.push(item)); }
//@end
//@fn src/non_empty_vec.rs @ `impl<T> NonEmptyVec<T>` pop r
//@spec
    ensures
        old(self)@.len() > 1 ==> r == Some(old(self)@.last()) && final(self)@ =~= old(self)@.drop_last(),
        old(self)@.len() == 1 ==> r.is_none() && final(self)@ == old(self)@,
//@end
}
