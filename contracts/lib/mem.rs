pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures *final(a) == b, r == *old(a);
