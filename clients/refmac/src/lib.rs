//! Control of check C25: the same macros over the same crate, with every path absolute.
#[doc(hidden)]
pub use ::rpds as __r;
pub use ::rpds::*;

#[macro_export]
macro_rules! list {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::List::new();
        $( c.push_front_mut($e); )*
        c.reverse()
    }};
}

#[macro_export]
macro_rules! list_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::List::new_sync();
        $( c.push_front_mut($e); )*
        c.reverse()
    }};
}

#[macro_export]
macro_rules! stack {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Stack::new();
        $( c.push_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! stack_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Stack::new_sync();
        $( c.push_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! queue {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Queue::new();
        $( c.enqueue_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! queue_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Queue::new_sync();
        $( c.enqueue_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! vector {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Vector::new();
        $( c.push_back_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! vector_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::Vector::new_sync();
        $( c.push_back_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! ht_set {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::HashTrieSet::new();
        $( c.insert_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! ht_set_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::HashTrieSet::new_sync();
        $( c.insert_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! rbt_set {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::RedBlackTreeSet::new();
        $( c.insert_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! rbt_set_sync {
    ($($e:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::RedBlackTreeSet::new_sync();
        $( c.insert_mut($e); )*
        c
    }};
}

#[macro_export]
macro_rules! ht_map {
    ($($k:expr => $v:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::HashTrieMap::new();
        $( c.insert_mut($k, $v); )*
        c
    }};
}

#[macro_export]
macro_rules! ht_map_sync {
    ($($k:expr => $v:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::HashTrieMap::new_sync();
        $( c.insert_mut($k, $v); )*
        c
    }};
}

#[macro_export]
macro_rules! rbt_map {
    ($($k:expr => $v:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::RedBlackTreeMap::new();
        $( c.insert_mut($k, $v); )*
        c
    }};
}

#[macro_export]
macro_rules! rbt_map_sync {
    ($($k:expr => $v:expr),*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::__r::RedBlackTreeMap::new_sync();
        $( c.insert_mut($k, $v); )*
        c
    }};
}
